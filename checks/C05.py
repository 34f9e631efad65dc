"""C05: a tampered header is rejected."""
import io

from checks.C11 import KINDS, Keys
from checks.lib import Sink, case

BOUNDS = {"quick": {"files": "16 recipients (a byte of the first, middle and last lines changed); one recipient of each kind, and the lists age+ssh-ed25519, passphrase+ssh-rsa, age+age+ssh-rsa; opened with each matching identity, another of its kind, and all together (except where said)",
                    "tampering": "any other byte at any place before the MAC, any byte inserted at any place (not in files for SSH keys) (in base64 body lines of all but passphrase and age files: the first and last three places of each line; files of one recipient), any one byte removed (for the first kind of file: also any two adjacent ones), any other MAC value, the MAC cut or extended; byte and insertion with the matching identity, files of several recipients with the first and with all; "
                                 "whole stanzas dropped, doubled, swapped and merged; lines split, joined, re-wrapped, indented; CRLF line ends; an added stanza of symbolic words anywhere; blank lines; stanzas of another file",
                    "keys": "fixed examples of all keys and draws, moduli and tampered bytes symbolic; with the file key and draws symbolic: other MAC values, doubled stanzas and footers, line breaks and white space"},
          "thorough": {"files": "as quick", "tampering": "as quick, at all places, with every identity; also any two bytes inserted or changed at adjacent places", "keys": "as quick"}}
OUTSIDE = ["an attacker who knows the file key (holders of an identity can make any header)", "changes of bytes after the MAC on the footer line"]
ASSUMPTIONS = ["HMAC-SHA-256 never collides, the AEAD opens only what was sealed"]
EXPECT_LABELS = ["rejected", "untouched file opens"]
LISTS = [("age1",), ("pass1",), ("rsa1",), ("ed1",), ("age1", "ed1"), ("pass1", "rsa1"), ("age1", "age2", "rsa1")]
STRUCTURE = ["drop", "double", "swap", "crlf", "cr", "blank", "rewrap", "indent", "trail", "join", "split", "upper", "lower", "nofooter", "twofooters", "version", "reversed"]


def cases(tier):
    q = tier == "quick"
    out = []
    for names in LISTS:
        out.append(case(untouched, names=names))
        for how in ("byte", "insert", "delete", "mac", "maclen"):
            if how in ("mac", "maclen"):
                out.append(case(tampered, names=names, how=how, part=0, parts=1))
            elif q and how != "delete":
                if len(names) == 1 and (how == "byte" or names not in (("rsa1",), ("ed1",))):
                    for part in range(3):
                        out.append(case(tampered, names=names, how=how, part=part, parts=3, brief=1, weight=20))
            elif q:
                if len(names) == 1 or names == LISTS[4]:
                    out.append(case(tampered, names=names, how=how, part=0, parts=1, brief=1, weight=20))
            else:
                parts = 12
                for part in range(parts):
                    out.append(case(tampered, names=names, how=how, part=part, parts=parts, weight=30))
        brief = int(q and len(names) > 1)
        out.append(case(structure, names=names, brief=brief, weight=20))
        out.append(case(added, names=names, brief=brief, weight=20))
        out.append(case(foreign, names=names, brief=brief, weight=20))
    for part in range(4):
        out.append(case(tampered, names=LISTS[0], how="delete2", part=part, parts=4))
        if not q:
            for names in LISTS[:4]:
                out.append(case(tampered, names=names, how="byte2", part=part, parts=4))
                out.append(case(tampered, names=names, how="insert2", part=part, parts=4))
    for names in LISTS[:4]:
        for only in STRUCTURE:
            if only in ("double", "twofooters") or only in ("crlf", "cr", "blank", "rewrap", "indent", "trail", "join") and names != ("ed1",):
                out.append(case(structure, names=names, symbolic=1, only=only))
        out.append(case(tampered, names=names, how="mac", part=0, parts=1, symbolic=1))
    out.append(case(crowded, count=16 if q else 60, weight=20))
    return out


class FixedKeys(Keys):
    def make(self, kind, name):
        if kind == "pass" and self.fixed:
            from age.keys.password import PasswordKey
            return PasswordKey(b"pass phrase " + name.encode("ascii"))
        return super().make(kind, name)


def build(h, names, symbolic, data=b"plain text", keys=None):
    """(keys, header up to and without the MAC, MAC text, rest)"""
    from age.file import Encryptor
    from age.format import load_header
    h.randomness("symbolic" if symbolic else "fixed")
    keys = keys or FixedKeys(h, not symbolic)
    out = Sink()
    enc = Encryptor([keys.public(x) for x in names], out)
    enc.write(data)
    enc.close()
    ct = out.content()
    stream = io.BytesIO(ct)
    load_header(stream)
    end = stream.tell()
    return keys, ct[:end - 44], ct[end - 44:end - 1], ct[end - 1:]


def identities(h, keys, names, brief=0):
    if brief:
        return [keys[x] for x in h.choose("identities", [(names[0],), tuple(names)])]
    choices = [(x,) for x in dict.fromkeys(names)] + [(names[0][:-1] + "2", names[0])]
    if len(names) > 1:
        choices += [tuple(names), tuple(reversed(names))]
    return [keys[x] for x in h.choose("identities", choices)]


def judge(h, ids, ct, label="rejected"):
    from age.file import Decryptor
    dec, err = h.run(Decryptor, ids, io.BytesIO(ct))
    if err is None:
        got, err = h.run(dec.read)
        h.check(err is not None, label)
    h.check(err is not None, label)


def untouched(h, names):
    from age.file import Decryptor
    keys, head, mac, rest = build(h, names, 0)
    dec, err = h.run(Decryptor, identities(h, keys, names), io.BytesIO(head + mac + rest))
    h.check(err is None, "untouched file opens")
    h.check(dec.read() == b"plain text", "untouched file opens")


def crowded(h, count):
    """A header of many stanzas: a byte of any of its lines."""
    from checks.C12 import plain_key
    from age.file import Decryptor, Encryptor
    from age.format import load_header
    h.randomness("fixed")
    keys = [plain_key(("age", "ed")[i % 2], i) for i in range(count)]
    out = Sink()
    enc = Encryptor([k.public_key() for k in keys], out)
    enc.write(b"plain text")
    enc.close()
    ct = out.content()
    stream = io.BytesIO(ct)
    load_header(stream)
    head, rest = ct[:stream.tell() - 44], ct[stream.tell() - 44:]
    starts = [i for i in range(len(head)) if i and head[i - 1:i] == b"\n"]
    # places in the first and the last stanza and in between; the identity of a stanza in front or behind
    at = 3 + h.choose("at", [0, starts[0], starts[1], starts[count], starts[-2], starts[-1]])
    identity = keys[h.choose("identity", [0, count - 1])]
    old = head[at:at + 1]
    dec, err = h.run(Decryptor, [identity], io.BytesIO(ct))
    h.check(err is None, "untouched file opens")
    judge(h, [identity], head[:at] + h.other("byte", old) + head[at + 1:] + rest)


def places(head, names, brief):
    """Every place of the header; with `brief`, only the ends of long body lines."""
    if not brief or names in (("age1",), ("pass1",)):
        return list(range(len(head)))
    out, start = [], 0
    for line in head.split(b"\n"):
        n = len(line)
        out += [start + i for i in range(n + 1) if n < 24 or line[:2] in (b"->", b"--") or i < 3 or i > n - 3]
        start += n + 1
    return [x for x in out if x < len(head)]


def tampered(h, names, how, part, parts, symbolic=0, brief=0):
    from age.primitives.encode import decode, encode
    keys, head, mac, rest = build(h, names, symbolic)
    n = len(head)
    ids = [keys[names[-1]]] if brief else identities(h, keys, names)
    if how == "mac":
        value = decode(mac.decode("ascii"))
        new = encode(h.other("mac", value)).encode("ascii")
        return judge(h, ids, head + new + rest)
    if how == "maclen":
        value = decode(mac.decode("ascii"))
        k = h.choose("length", [0, 1, 8, 16, 20, 31, 33, 48, 64])
        new = encode((value + h.bytes("more", 32))[:k]).encode("ascii")
        return judge(h, ids, head + new + rest)
    at = h.choose("at", places(head, names, brief)[part::parts])
    w = 2 if how.endswith("2") else 1
    if how.startswith("byte"):
        h.assume(at + w <= n)
        head = head[:at] + h.other("byte", head[at:at + w]) + head[at + w:]
    elif how.startswith("insert"):
        new = head[:at] + h.bytes("byte", w) + head[at:]
        head = new
    else:
        h.assume(at + w <= n)
        head = head[:at] + head[at + w:]
    judge(h, ids, head + mac + rest)


def stanzas(head):
    """(version line, [stanza bytes], footer start)"""
    lines = head.split(b"\n")
    out = []
    for line in lines[1:-1]:
        if line[:2] == b"->":
            out.append([line])
        else:
            out[-1].append(line)
    return lines[0], out, lines[-1]


def structure(h, names, symbolic=0, brief=0, only=None):
    keys, head, mac, rest = build(h, names, symbolic)
    ids = identities(h, keys, names, brief)
    first, parts, foot = stanzas(head)
    how = h.choose("how", [s for s in STRUCTURE if (only is None or s == only) and (len(names) > 1 or s not in ("drop", "swap", "reversed"))])
    i = h.choose("which", range(len(parts)))

    def text(parts, end=b"\n", first=first, foot=foot):
        return end.join([first] + [line for p in parts for line in p] + [foot])
    new = None
    if how == "drop":
        new = text(parts[:i] + parts[i + 1:])
    elif how == "double":
        new = text(parts[:i + 1] + parts[i:])
    elif how == "swap":
        h.assume(i + 1 < len(parts))
        new = text(parts[:i] + [parts[i + 1], parts[i]] + parts[i + 2:])
    elif how == "reversed":
        new = text(parts[::-1])
    elif how == "crlf":
        new = text(parts, b"\r\n")
    elif how == "cr":
        new = text(parts[:i] + [[x + b"\r" for x in parts[i]]] + parts[i + 1:])
    elif how == "blank":
        new = text(parts[:i] + [parts[i] + [b""]] + parts[i + 1:])
    elif how == "rewrap":
        p = parts[i]
        new = text(parts[:i] + [p[:1] + [p[1][:10], p[1][10:]] + p[2:]] + parts[i + 1:])
    elif how == "indent":
        p = parts[i]
        new = text(parts[:i] + [p[:1] + [b" " + p[1]] + p[2:]] + parts[i + 1:])
    elif how == "trail":
        p = parts[i]
        new = text(parts[:i] + [p[:-1] + [p[-1] + b" "]] + parts[i + 1:])
    elif how == "join":
        p = parts[i]
        new = text(parts[:i] + [[p[0] + b" " + p[1]] + p[2:]] + parts[i + 1:])
    elif how == "split":
        p = parts[i]
        new = text(parts[:i] + [[p[0], p[0][:-3]] + p[1:]] + parts[i + 1:])
    elif how == "upper":
        new = text(parts, first=first.upper())
    elif how == "lower":
        new = text(parts[:i] + [[parts[i][0][:9].lower() + parts[i][0][9:]] + parts[i][1:]] + parts[i + 1:])
        h.assume(h.no(new == head))
    elif how == "nofooter":
        new = text(parts, foot=b"")
    elif how == "twofooters":
        new = head + mac + b"\n" + foot
    elif how == "version":
        new = text(parts, first=first[:-1] + b"2")
    judge(h, ids, new + mac + rest)


def added(h, names, brief=0):
    """A stanza of any type word is put in front of, between or behind the others."""
    keys, head, mac, rest = build(h, names, 0)
    ids = identities(h, keys, names, brief)
    first, parts, foot = stanzas(head)
    i = h.choose("place", range(len(parts) + 1))
    kind = h.choose("type", ["unknown", "X25519", "scrypt", "ssh-rsa", "ssh-ed25519"])
    word = h.text("word", 2, chars="abcXYZ05+/") if kind == "unknown" else kind
    line = "-> " + word + " " + h.text("argument", 4, chars="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
    extra = [line.encode("ascii")] + ([b"QUJD"] if h.choose("body", [False, True]) else [])
    new = b"\n".join([first] + [x for p in parts[:i] + [extra] + parts[i:] for x in p] + [foot])
    judge(h, ids, new + mac + rest)


def foreign(h, names, brief=0):
    """Stanzas, MAC or payload of another file to the same recipients."""
    keys, head, mac, rest = build(h, names, 0)
    _, head2, mac2, rest2 = build(h, names, 0, b"other text", keys)
    ids = identities(h, keys, names, brief)
    first, parts, foot = stanzas(head)
    parts2 = stanzas(head2)[1]
    how = h.choose("how", ["head", "mac", "add", "replace", "behind"])
    i = h.choose("which", range(len(parts)))
    if how == "head":
        return judge(h, ids, head2 + mac + rest)
    if how == "mac":
        return judge(h, ids, head + mac2 + rest)
    new = {"add": parts[:i] + [parts2[i]] + parts[i:], "replace": parts[:i] + [parts2[i]] + parts[i + 1:], "behind": parts + [parts2[i]]}[how]
    judge(h, ids, b"\n".join([first] + [x for p in new for x in p] + [foot]) + mac + rest)
