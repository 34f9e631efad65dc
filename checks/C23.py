"""C23: SSH key discovery uses every usable key and is never blocked by others."""
import base64
import json
import os

from checks.C21 import armor, container, numbers, private_section, string
from checks.lib import case

BOUNDS = {"quick": {"directory": "0..3 files: every pair of a usable and any other kind of file in both orders and between two usable ones, three usable ones; 28 files, 22 of them usable",
                    "usable": "Ed25519 keys (every seed, symbolic comment) as OpenSSH containers, PKCS#8 Ed25519, RSA as PKCS#1, PKCS#8 and OpenSSH",
                    "others": "public keys, empty files, up to 4 symbolic bytes, symbolic lines of up to 12 bytes, up to 24 armored symbolic bytes, passphrase-protected, truncated at every place, DSA, ECDSA, X25519, Ed448, DER, OpenSSH containers with symbolic type name, cipher name, KDF name, "
                              "key count, check words, Ed25519 halves, any one byte changed or any length field replaced, a directory, a dangling link; files of other names"},
          "thorough": {"directory": "as quick", "usable": "as quick", "others": "up to 63 symbolic bytes; truncation and changed bytes for every kind of key"}}
OUTSIDE = ["files that cannot be read", "the PEM reader of the library for symbolic contents (it runs on fixed examples)"]
EXPECT_LABELS = ["usable keys returned", "others skipped", "never fails", "matching kind"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "ssh_files.json")) as _f:
    FILES = {k: base64.b64decode(v) for k, v in json.load(_f).items()}
GOOD = ["ed symbolic", "rsa pem", "rsa pkcs8", "rsa openssh", "ed pkcs8", "ed openssh", "rsa small"]
FIXED_BAD = sorted(set(FILES) - set(GOOD))
OTHER = ["empty", "directory", "dangling", "newlines", "pub symbolic", "nul"]


def cases(tier):
    q = tier == "quick"
    out = [case(nothing), case(usable), case(file_names), case(roots), case(crowd, count=28 if q else 60)]
    for g in GOOD if not q else ("ed symbolic", "rsa pem"):
        for b in FIXED_BAD + OTHER:
            out.append(case(mixed, good=g, bad=b))
    for n in range(0, 5 if q else 8):
        out.append(case(garbage, n=n))
    for n in (6, 12) if q else range(5, 32):
        out.append(case(garbage, n=n, line=1))
    for n in (0, 1, 14, 15, 16, 19, 20, 24) if q else range(0, 41):
        out.append(case(armored_garbage, n=n))
    for what in ("count", "type", "curve", "cipher", "kdf", "check", "halves", "magic", "padding", "mpint"):
        out.append(case(damaged, what=what))
    for kind in ("ed openssh", "rsa pem", "rsa openssh encrypted") if q else GOOD[1:] + ["rsa openssh encrypted", "ed openssh encrypted", "ec256 openssh", "rsa pem encrypted"]:
        out.append(case(truncated, kind=kind, step=1 if kind == "ed openssh" or not q else 7))
    for part in range(8):
        out.append(case(changed, part=part, parts=8))
    for i in range(9):
        out.append(case(field, which=i))
    return out


def make_good(h, kind):
    """(file content, wire encoding of its public key, kind of identity)"""
    if kind == "ed symbolic":
        from cryptography.hazmat.primitives.asymmetric import ed25519
        from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
        seed = h.bytes("seed", 32)
        pk = ed25519.Ed25519PrivateKey.from_private_bytes(seed).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
        text = armor(container(private_section("ed", [pk, seed + pk], h.bytes("comment", 4), h.bytes("check", 4))))
        return text, b"\x00\x00\x00\x0bssh-ed25519\x00\x00\x00\x20" + pk, "Ed25519PrivateKey"
    name = "RSAPrivateKey" if kind.startswith("rsa") else "Ed25519PrivateKey"
    return FILES[kind], wire(kind), name


def wire(kind):
    """Wire encoding of the public key of an example, from its .pub line."""
    if kind == "rsa small":
        return None
    line = FILES[kind.split()[0] + " pub"]
    return base64.b64decode(line.split(b" ")[1])


def put(h, directory, name, content):
    path = os.path.join(directory, name)
    if isinstance(content, str):
        if content == "directory":
            os.mkdir(path)
        else:
            os.symlink(os.path.join(directory, "nowhere"), path)
        return
    h.write_file(path, content)


def discover(h, directory, wants, root=None):
    """Loads the identities and compares them with the wanted (wire, kind)s."""
    from age.keyloader import load_ssh_keys
    keys, err = h.run(load_ssh_keys, directory) if root is None else h.run(load_ssh_keys)
    h.check(err is None, "never fails")
    keys = list(keys)
    h.check(len(keys) >= len(wants), "usable keys returned")
    h.check(len(keys) <= len(wants), "others skipped")
    for w, kind in wants:
        same = [k for k in keys if type(k).__name__ == kind]
        h.check(len(same) == len([1 for _, x in wants if x == kind]), "matching kind")
        if w is not None:
            h.check(h.any(*[k.public_key().binary_encoding() == w for k in same]), "usable keys returned")


def ssh_dir(h):
    return os.path.join(h.home(), ".ssh")


def with_good(h, bad, name="id_bad", good="ed symbolic"):
    """A usable key before and behind the other file."""
    d = ssh_dir(h)
    text, w, kind = make_good(h, good)
    text2, w2, kind2 = make_good(h, "ed pkcs8")
    put(h, d, "id_a", text)
    put(h, d, name, bad)
    put(h, d, "id_z", text2)
    discover(h, d, [(w, kind), (w2, kind2)])


def nothing(h):
    d = ssh_dir(h)
    if h.choose("missing", [False, True]):
        d = os.path.join(d, "missing")
    discover(h, d, [])


def usable(h):
    d = ssh_dir(h)
    wants = []
    for i, kind in enumerate(h.choose("kinds", [(a,) for a in GOOD] + [(a, b) for a in GOOD for b in GOOD if a != b] + [tuple(GOOD[:3]), tuple(GOOD[3:]), tuple(GOOD)])):
        text, w, name = make_good(h, kind)
        put(h, d, "id_%d" % i, text)
        wants.append((w, name))
    discover(h, d, wants)


def crowd(h, count):
    """Many files, every fifth of them no key."""
    from cryptography.hazmat.primitives.asymmetric import ed25519
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    d = ssh_dir(h)
    wants = []
    for i in range(count):
        if i % 5 == 3:
            put(h, d, "id_%02d" % i, b"no key\n")
            continue
        seed = bytes((11 * i + 3 * j) % 256 for j in range(32)) if i + 1 < count else h.bytes("seed", 32)
        pk = ed25519.Ed25519PrivateKey.from_private_bytes(seed).public_key().public_bytes(Encoding.Raw, PublicFormat.Raw)
        put(h, d, "id_%02d" % i, armor(container(private_section("ed", [pk, seed + pk], b"me"))))
        wants.append((b"\x00\x00\x00\x0bssh-ed25519\x00\x00\x00\x20" + pk, "Ed25519PrivateKey"))
    discover(h, d, wants)


def file_names(h):
    """Only id_* files count, whatever follows."""
    d = ssh_dir(h)
    text, w, kind = make_good(h, "ed symbolic")
    other = FILES["rsa pem"]
    put(h, d, h.choose("name", ["id_ed25519", "id_", "id_rsa", "id_x.old", "id_a b", "id_\xe4", "id_ed25519_sk", "id_key.pub"]), text)
    for name in ("identity", "known_hosts", "config", "xid_rsa", ".id_rsa", "ID_RSA", "authorized_keys"):
        put(h, d, name, other)
    discover(h, d, [(w, kind)])


def roots(h):
    """The default root is ~/.ssh; names starting with ~ are expanded."""
    from age.keyloader import load_ssh_keys
    d = ssh_dir(h)
    text, w, kind = make_good(h, "ed symbolic")
    put(h, d, "id_ed25519", text)
    put(h, d, "id_ed25519.pub", FILES["ed pub"])
    discover(h, d, [(w, kind)], root="default")
    keys, err = h.run(load_ssh_keys, "~/.ssh")
    h.check(err is None, "never fails")
    h.check(len(keys) == 1, "usable keys returned")


def mixed(h, good, bad):
    content = FILES.get(bad)
    if content is None:
        content = {"empty": b"", "newlines": b"\n\n", "nul": b"\0" * 80, "directory": "directory", "dangling": "dangling",
                   "pub symbolic": b"ssh-ed25519 AAAAC3NzaC1lZDI1NTE5AAAAI"}[bad]
        if bad == "pub symbolic":
            content = content + h.text("public", 43, chars="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/").encode("ascii") + b" me\n"
    with_good(h, content, good=good)


def garbage(h, n, line=0):
    data = h.bytes("garbage", n)
    if line:
        h.assume(h.all(*[h.all(x != 10, x != 13) for x in data]))
    with_good(h, data)


def armored_garbage(h, n):
    with_good(h, armor(h.bytes("garbage", n)))


def truncated(h, kind, step):
    """Cutting only the line end behind the armor leaves a usable key."""
    text = FILES[kind].rstrip(b"\n")
    with_good(h, text[:h.choose("length", range(0, len(text), step))])


def ed_container(h):
    seed, pk = bytes(range(32)), bytes(range(60, 92))
    return container(private_section("ed", [pk, seed + pk], b"me"))


def damaged(h, what):
    fields = numbers(h, "ed", 1, True)
    good = private_section("ed", fields, b"me")
    if what == "count":
        n = h.bytes("count", 4)
        h.assume(h.no(n == b"\0\0\0\1"))
        bad = container(good, count=n)
    elif what == "magic":
        m = h.bytes("magic", 15)
        h.assume(h.no(m == b"openssh-key-v1\0"))
        bad = container(good, magic=m)
    elif what == "type":
        name = h.bytes("name", h.choose("length", range(12)))
        h.assume(h.no(h.any(name == b"ssh-ed25519", name == b"ssh-rsa", name == b"ssh-dss", name[:6] == b"ecdsa-")))
        bad = container(b"\x01\x02\x03\x04" * 2 + string(name) + b"".join([string(f) for f in fields]) + string(b""))
    elif what == "curve":
        name = h.bytes("name", h.choose("length", range(9)))
        h.assume(h.no(name[:5] == b"nistp"))
        bad = container(b"\x01\x02\x03\x04" * 2 + string(b"ecdsa-sha2-x") + string(name) + string(b"\x04\x05") + string(b"\x17") + string(b""))
    elif what in ("cipher", "kdf"):
        name = h.bytes("name", h.choose("length", range(11)))
        h.assume(h.no(name == b"none"))
        cipher, kdf = (name, b"bcrypt") if what == "cipher" else (b"aes256-ctr", name)
        meta = string(h.bytes("salt", 16)) + b"\0\0\0\x10"
        bad = b"openssh-key-v1\0" + string(cipher) + string(kdf) + string(meta) + b"\0\0\0\1" + string(b"pub") + string(good)
    elif what == "check":
        a, b = h.bytes("first", 4), h.bytes("second", 4)
        h.assume(h.no(a == b))
        bad = container(a + b + good[8:])
    elif what == "halves":
        pk, other, seed = h.bytes("public", 32), h.bytes("other", 32), h.bytes("seed", 32)
        h.assume(h.no(pk == other))
        bad = container(private_section("ed", [pk, seed + other], b"me"))
    elif what == "mpint":
        a = h.bytes("n", 1)
        h.assume(a[0] > 127)
        bad = container(b"\x01\x02\x03\x04" * 2 + string(b"ssh-rsa") + string(a) + string(b"\x03") * 5 + string(b""))
    else:
        pad = h.bytes("padding", h.choose("length", range(1, 18)))
        h.assume(h.no(pad == bytes(range(1, len(pad) + 1))) if len(pad) < 9 else True)
        bad = container(private_section("ed", fields, b"me", pad=pad))
    with_good(h, armor(bad))


def survive(h, data):
    """Whatever becomes of the changed file, the usable keys are found and nothing fails."""
    from age.keyloader import load_ssh_keys
    d = ssh_dir(h)
    text, w, kind = make_good(h, "ed symbolic")
    put(h, d, "id_a", text)
    put(h, d, "id_bad", armor(data))
    put(h, d, "id_z", FILES["rsa pem"])
    keys, err = h.run(load_ssh_keys, d)
    h.check(err is None, "never fails")
    keys = list(keys)
    h.check(2 <= len(keys) <= 3, "usable keys returned")
    h.check(keys[-1].public_key().binary_encoding() == wire("rsa pem") if type(keys[-1]).__name__ == "RSAPrivateKey" else False, "usable keys returned")
    h.check(h.any(*[k.public_key().binary_encoding() == w for k in keys if type(k).__name__ == kind]), "usable keys returned")


def changed(h, part, parts):
    data = ed_container(h)
    i = h.choose("at", range(part, len(data), parts))
    survive(h, data[:i] + h.other("byte", data[i:i + 1]) + data[i + 1:])


def field(h, which):
    data = ed_container(h)
    at = [15, 23, 31, 35, 39, 46, 58, 73, 109][which]
    survive(h, data[:at] + h.bytes("value", 4) + data[at + 4:])
