"""C12: what is encrypted to recipients is what each of them decrypts."""
import io
import itertools

from checks.C11 import KINDS, Keys
from checks.lib import Sink, case

K = 65536
BOUNDS = {"quick": {"recipients": "every sequence of 1..2 kinds out of the four (two keys of a kind are different keys), one list of all four kinds; a list of 20 fixed keys",
                    "plaintext": "every byte string of 0..7 bytes cut in every way into up to 3 writes, and generic byte strings of every length 0..131073 and 5242881..5242889 cut at any place",
                    "reads": "of data of 0, 1, 3 and 6 bytes every sequence of up to 3 read sizes out of {none, -1, 0, 1, 2, 5, 100}, then to the end; symbolic sizes for long data",
                    "keys": "fixed curve secrets; moduli, passphrases, file key, nonce and ephemeral secrets symbolic"},
          "thorough": {"recipients": "also every sequence of 3 kinds", "plaintext": "0..12 bytes; generic ones up to 5 chunks", "reads": "up to 4, every length of 0..12", "keys": "as quick"}}
OUTSIDE = ["streams that fail while being written or read"]
ASSUMPTIONS = ["long plaintexts are generic: no two different slices of them are equal (the code compares no content)"]
EXPECT_LABELS = ["written", "decrypted", "end of data", "close twice"]


def named(kinds):
    seen = {}
    out = []
    for k in kinds:
        seen[k] = seen.get(k, 0) + 1
        out.append(k + str(seen[k]))
    return tuple(out)


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2) if q else (1, 2, 3):
        for ks in itertools.product(KINDS, repeat=n):
            if sum(k == "rsa" for k in ks) < 3 and max(map(ks.count, ks)) < 3:
                out.append(case(recipients, names=named(ks), n=3))
    out.append(case(recipients, names=named(KINDS), n=2))
    out.append(case(recipients, names=named(reversed(KINDS)), n=0))
    for n in range(0, 8 if q else 13):
        out.append(case(splits, n=n, pieces=3))
        if not q or n in (0, 1, 3, 6):
            out.append(case(reads, n=n, most=3 if q else 4))
    for lo, hi in ((0, K - 1), (K, K), (K + 1, 2 * K), (2 * K + 1, 2 * K + 1)) if q else ((0, K - 1), (K, K), (K + 1, 2 * K), (2 * K + 1, 3 * K), (3 * K + 1, 4 * K), (4 * K + 1, 5 * K)):
        out.append(case(long, lo=lo, hi=hi))
    out.append(case(long, lo=80 * K + 1, hi=80 * K + 9))
    out.append(case(reused, n=4))
    out.append(case(crowd, count=20 if q else 40))
    return out


def encrypt(h, recipients, writes):
    from age.file import Encryptor
    out = Sink()
    enc, err = h.run(Encryptor, recipients, out)
    h.check(err is None, "written")
    for w in writes:
        n, err = h.run(enc.write, w)
        h.check(err is None, "written")
        h.check(n == len(w), "written")
    _, err = h.run(enc.close)
    h.check(err is None, "written")
    first = out.content()
    _, err = h.run(enc.close)
    h.check(err is None, "close twice")
    h.check(out.content() == first, "close twice")
    return first


def decrypt(h, identity, ct, data, sizes=()):
    from age.file import Decryptor
    dec, err = h.run(Decryptor, [identity], io.BytesIO(ct))
    h.check(err is None, "decrypted")
    at = 0
    for s in tuple(sizes) + (-1,):
        got, err = h.run(dec.read) if s is None else h.run(dec.read, s)
        h.check(err is None, "decrypted")
        want = data[at:] if s is None or h.decide(s < 0) else data[at:at + s]
        h.check(got == want, "decrypted")
        at = at + len(want)
    for s in (None, 1, -1):
        got, err = h.run(dec.read) if s is None else h.run(dec.read, s)
        h.check(err is None, "end of data")
        h.check(len(got) == 0, "end of data")
    _, err = h.run(dec.close)
    h.check(err is None, "decrypted")


def recipients(h, names, n):
    keys = Keys(h, True)
    data = h.bytes("data", n)
    ct = encrypt(h, [keys.public(x) for x in names], [data])
    for x in names:
        decrypt(h, keys[x], ct, data)


def plain_key(kind, i):
    """A fixed key."""
    secret = bytes((31 * i + 7 * j + 1) % 256 for j in range(32))
    if kind == "age":
        from age.keys.agekey import AgePrivateKey
        return AgePrivateKey.from_private_bytes(secret)
    from age.keys.ed25519 import Ed25519PrivateKey
    from cryptography.hazmat.primitives.asymmetric import ed25519
    return Ed25519PrivateKey(ed25519.Ed25519PrivateKey.from_private_bytes(secret))


def crowd(h, count):
    """Many recipients."""
    h.randomness("fixed")
    keys = [plain_key(("age", "ed", "age")[i % 3], i) for i in range(count)]
    data = h.bytes("data", 3)
    ct = encrypt(h, [k.public_key() for k in keys], [data])
    decrypt(h, keys[h.choose("reader", range(count))], ct, data)


def splits(h, n, pieces):
    keys = Keys(h, True)
    data = h.bytes("data", n)
    cuts = [c for m in range(0, pieces) for c in itertools.combinations_with_replacement(range(n + 1), m)] + [None]
    cut = h.choose("cuts", cuts)
    if cut is None:
        h.assume(n == 0)
        writes = []
    else:
        ends = (0,) + cut + (n,)
        writes = [data[a:b] for a, b in zip(ends, ends[1:])]
    ct = encrypt(h, [keys.public("age1")], writes)
    decrypt(h, keys["age1"], ct, data)


def reads(h, n, most):
    keys = Keys(h, True)
    data = h.bytes("data", n)
    some = (None, -1, 0, 1, 2, 5, 100)
    sizes = h.choose("sizes", [s for m in range(1, most + 1) for s in itertools.product(some, repeat=m)
                               if not any(x in (None, -1, 100) for x in s[:-2])])
    ct = encrypt(h, [keys.public("pass1")], [data])
    decrypt(h, keys["pass1"], ct, data, sizes)


def long(h, lo, hi):
    keys = Keys(h, True)
    data = h.blob("data", lo, hi)
    at = h.int("cut", 0, hi)
    h.assume(at <= len(data))
    ct = encrypt(h, [keys.public("age1"), keys.public("rsa1")], [data[:at], data[at:]])
    s = h.int("size", 0, hi + 1)
    decrypt(h, keys[h.choose("identity", ["age1", "rsa1"])], ct, data, [s])


def reused(h, n):
    """Writes from one buffer that is overwritten in between."""
    keys = Keys(h, True)
    a, b = h.bytes("a", n), h.bytes("b", n)
    from age.file import Encryptor
    out = Sink()
    enc, err = h.run(Encryptor, [keys.public("age1")], out)
    h.check(err is None, "written")
    buf = bytearray(a)
    _, err = h.run(enc.write, buf)
    h.check(err is None, "written")
    buf[:] = b
    _, err = h.run(enc.write, buf)
    h.check(err is None, "written")
    buf[:] = bytes(n)
    _, err = h.run(enc.close)
    h.check(err is None, "written")
    decrypt(h, keys["age1"], out.content(), a + b)
