"""C26: HMAC and HKDF compute their RFC definitions for every key."""
import hashlib

from checks.lib import case

BOUNDS = {"quick": {"HMAC key": "every length 0..140 with all bytes symbolic", "message": "generic byte string of any length up to 1 MiB, and all-symbolic bytes of length 0..40",
                    "tag": "all-symbolic bytes of length 0..34; the right tag cut short at either end, made longer, changed in one byte", "HKDF": "salt 0..70, info 0..40, key 0..70 bytes symbolic, and salt, info and key of selected lengths up to 300; output lengths 1..100 and 8160, and 8161 refused"},
          "thorough": {"HMAC key": "every length 0..300", "message": "as quick", "tag": "0..66", "HKDF": "salt and key 0..140, info 0..100, output 1..300"}}
OUTSIDE = ["longer keys", "the compression function of SHA-256 itself (uninterpreted, collision free)"]
EXPECT_LABELS = ["RFC 2104", "verify accepts the tag", "verify rejects", "is_valid agrees", "RFC 5869", "length limit"]


def cases(tier):
    out = []
    top = 140 if tier == "quick" else 300
    step = 10
    for a in range(0, top + 1, step):
        out.append(case(generate, lo=a, hi=min(a + step - 1, top), witnesses=10))
    for k in (0, 16, 32, 63, 64, 65, 80):
        out.append(case(verify, k=k, tmax=34 if tier == "quick" else 66))
    s = [0, 1, 16, 32, 64, 65, 70] if tier == "quick" else list(range(0, 141, 7))
    for a in s:
        out.append(case(derive, nsalt=a, top=100 if tier == "quick" else 300))
    out.append(case(long_inputs))
    out.append(case(limits))
    return out


def rfc2104(key, msg):
    if len(key) > 64:
        key = hashlib.sha256(key).digest()
    key = key + bytes(64 - len(key))
    inner = hashlib.sha256(bytes(b ^ 0x36 for b in key) + msg).digest()
    return hashlib.sha256(bytes(b ^ 0x5C for b in key) + inner).digest()


def rfc5869(salt, info, ikm, n):
    prk = rfc2104(salt if len(salt) else bytes(32), ikm)
    out, t, i = b"", b"", 1
    while len(out) < n:
        t = rfc2104(prk, t + info + bytes([i]))
        out = out + t
        i += 1
    return out[:n]


def generate(h, lo, hi):
    from age.primitives.hmac import HMAC
    key = h.bytes("key", h.choose("n", range(lo, hi + 1)))
    if h.choose("generic", [0, 1]):
        msg = h.blob("msg", 0, 1 << 20)
    else:
        msg = h.bytes("msg", h.choose("m", [0, 1, 40]))
    h.check(HMAC(key).generate(msg) == rfc2104(key, msg), "RFC 2104")


def verify(h, k, tmax):
    from age.primitives.hmac import HMAC
    from cryptography.exceptions import InvalidSignature
    key = h.bytes("key", k)
    msg = h.bytes("msg", h.choose("m", [0, 7]))
    good = rfc2104(key, msg)
    n = h.choose("t", [31, 33, 32, 0, 1, 16, tmax])
    how = h.choose("how", ["cut", "longer", "front cut", "close", "any"])
    if how == "any":
        tag = h.bytes("tag", n)
    elif how == "cut":
        tag = good[:n]
    elif how == "longer":
        tag = good + h.bytes("more", n)
    elif how == "front cut":
        tag = good[max(0, 32 - n):]
    else:
        n = n % 32
        tag = good[:n] + h.other("byte", good[n:n + 1]) + good[n + 1:]
    if how == "any" and n == 32 and h.choose("right", [0, 1]):
        tag = good
        r, err = h.run(HMAC(key).verify, msg, tag)
        h.check(err is None, "verify accepts the tag")
        h.check(HMAC(key).is_valid(msg, tag) is True, "is_valid agrees")
        return
    r, err = h.run(HMAC(key).verify, msg, tag)
    h.check(h.iff(tag == good, err is None), "verify rejects")
    if err is not None:
        h.check(isinstance(err, InvalidSignature), "verify rejects")
    valid, err2 = h.run(HMAC(key).is_valid, msg, tag)
    h.check(err2 is None and valid is (err is None), "is_valid agrees")


def derive(h, nsalt, top):
    from age.primitives.hkdf import hkdf
    salt = h.bytes("salt", nsalt)
    info = h.bytes("info", h.choose("i", [0, 9, 40]))
    ikm = h.bytes("ikm", h.choose("k", [0, 16, 32, 70]))
    n = h.choose("len", [1, 16, 32, 33, 64, top])
    h.check(hkdf(salt, info, ikm, n) == rfc5869(salt, info, ikm, n), "RFC 5869")
    h.check(hkdf(salt=salt, label=info, key=ikm, len=n) == rfc5869(salt, info, ikm, n), "RFC 5869")


def long_inputs(h):
    from age.primitives.hkdf import hkdf
    sizes = h.choose("sizes", [(16, 65, 16), (16, 300, 16), (0, 0, 129), (0, 9, 300), (300, 9, 16), (129, 129, 129), (65, 256, 65)])
    salt, info, ikm = h.bytes("salt", sizes[0]), h.bytes("info", sizes[1]), h.bytes("ikm", sizes[2])
    h.check(hkdf(salt, info, ikm, 64) == rfc5869(salt, info, ikm, 64), "RFC 5869")


def limits(h):
    from age.primitives.hkdf import hkdf
    salt, ikm = b"saltsalt", h.choose("ikm", [b"", b"key"])
    out, err = h.run(hkdf, salt, b"x", ikm, 255 * 32)
    h.check(err is None and len(out) == 255 * 32, "length limit")
    out, err = h.run(hkdf, salt, b"x", ikm, 255 * 32 + 1)
    h.check(isinstance(err, ValueError), "length limit")
