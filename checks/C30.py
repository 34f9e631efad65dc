"""C30: SSH key fingerprints are the standard ones."""
from checks.lib import case

BOUNDS = {"quick": {"Ed25519 key": "every 32-byte value", "RSA key": "every 1024-bit odd modulus, e = 65537; wire form and line also for e = 3 and for 1023, 1025, 1028 and 2047 bits", "digest": "every MD5 and SHA-256 digest (uninterpreted, so every digest value is covered)",
                    "comment": "every comment of 0, 1 and 6 code points", "algorithm name": "every text of 0..7 code points"},
          "thorough": {"RSA key": "also 2048-bit moduli", "comment": "also 20 code points", "rest": "as quick"}}
OUTSIDE = ["MD5 and SHA-256 themselves", "RSA keys of other exponents and sizes"]
EXPECT_LABELS = ["MD5 form", "SHA256 form", "default is MD5", "line", "other algorithm refused", "wire encoding"]
HEX = "0123456789abcdef"
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def cases(tier):
    out = []
    for kind in ("ed", "rsa"):
        out += [case(md5, kind=kind), case(sha256, kind=kind), case(algorithms, kind=kind), case(wire, kind=kind)]
        out += [case(line, kind=kind, n=n) for n in ((0, 1, 6) if tier == "quick" else (0, 1, 6, 20))]
    for bits, e in ((1023, 65537), (1025, 65537), (1028, 65537), (2047, 65537), (1024, 3)):
        out += [case(wire, kind="rsa", bits=bits, e=e), case(line, kind="rsa", n=2, bits=bits, e=e)]
    if tier == "thorough":
        out += [case(f, kind="rsa", bits=2048) for f in (md5, sha256, wire)]
        out += [case(line, kind="rsa", n=3, bits=2048)]
    return out


def make(h, kind, bits=1024, e=65537):
    """(key, wire encoding, size, name)"""
    if kind == "ed":
        from age.keys.ed25519 import Ed25519PublicKey
        from cryptography.hazmat.primitives.asymmetric import ed25519
        b = h.bytes("pk", 32)
        return (Ed25519PublicKey(ed25519.Ed25519PublicKey.from_public_bytes(b)),
                b"\x00\x00\x00\x0bssh-ed25519\x00\x00\x00\x20" + b, "256", "ED25519")
    from age.keys.rsa import RSAPublicKey
    k = h.rsa_generic(0, bits, e).public_key()
    n = k.public_numbers().n
    size, eb = (bits + 7) // 8, e.to_bytes((e.bit_length() + 7) // 8, "big")
    raw = b"\x00" * (bits % 8 == 0) + n.to_bytes(size, "big")
    w = b"\x00\x00\x00\x07ssh-rsa" + len(eb).to_bytes(4, "big") + eb + len(raw).to_bytes(4, "big") + raw
    return RSAPublicKey(k), w, str(bits), "RSA"


def hex2(b):
    return HEX[b >> 4] + HEX[b & 15]


def expect_md5(wire):
    import hashlib
    d = hashlib.md5(wire).digest()
    text = "MD5:"
    for i in range(16):
        text = text + (":" if i else "") + hex2(d[i])
    return text


def expect_sha256(wire):
    import hashlib
    d = hashlib.sha256(wire).digest()
    text = "SHA256:"
    for i in range(0, 30, 3):
        v = (d[i] << 16) | (d[i + 1] << 8) | d[i + 2]
        text = text + B64[(v >> 18) & 63] + B64[(v >> 12) & 63] + B64[(v >> 6) & 63] + B64[v & 63]
    v = (d[30] << 8) | d[31]
    return text + B64[v >> 10] + B64[(v >> 4) & 63] + B64[(v << 2) & 63]


def wire(h, kind, bits=1024, e=65537):
    k, w, _, _ = make(h, kind, bits, e)
    h.check(k.binary_encoding() == w, "wire encoding")


def md5(h, kind, bits=1024, e=65537):
    k, w, _, _ = make(h, kind, bits, e)
    want = expect_md5(w)
    h.check(k.fingerprint("MD5") == want, "MD5 form")
    h.check(k.fingerprint(algorithm="MD5") == want, "MD5 form")
    h.check(k.fingerprint() == want, "default is MD5")
    h.check(len(want) == 51, "MD5 form")


def sha256(h, kind, bits=1024, e=65537):
    k, w, _, _ = make(h, kind, bits, e)
    want = expect_sha256(w)
    h.check(k.fingerprint("SHA256") == want, "SHA256 form")
    h.check(k.fingerprint(algorithm="SHA256") == want, "SHA256 form")
    h.check(len(want) == 50, "SHA256 form")


def line(h, kind, n, bits=1024, e=65537):
    k, w, size, name = make(h, kind, bits, e)
    comment = h.text("comment", n)
    h.check(k.fingerprint_line(comment=comment) == size + " " + expect_md5(w) + " " + comment + " (" + name + ")", "line")
    h.check(k.fingerprint_line("SHA256", comment) == size + " " + expect_sha256(w) + " " + comment + " (" + name + ")", "line")
    h.check(k.fingerprint_line("MD5") == size + " " + expect_md5(w) + " age (" + name + ")", "line")
    h.check(k.fingerprint_line() == size + " " + expect_md5(w) + " age (" + name + ")", "line")


def algorithms(h, kind):
    k, w, _, _ = make(h, kind)
    n = h.choose("n", range(0, 8))
    name = h.text("name", n)
    h.assume(h.no(h.any(name == "MD5", name == "SHA256")))
    _, err = h.run(k.fingerprint, name)
    h.check(isinstance(err, ValueError), "other algorithm refused")
    _, err = h.run(k.fingerprint_line, name)
    h.check(isinstance(err, ValueError), "other algorithm refused")
