"""C15: unpadded base64 is a bijection on byte strings."""
from checks.lib import case

BOUNDS = {"quick": {"byte string length": "every length 0..96 and lengths 127, 128, 255, 256, 512, 1025, 4097 with all bytes symbolic", "text length": "every text of 0..5 code points"},
          "thorough": {"byte string length": "every length 0..257 and lengths to 8192 with all bytes symbolic", "text length": "every text of 0..7 code points"}}
OUTSIDE = ["longer byte strings and texts"]
EXPECT_LABELS = ["round trip", "length", "alphabet", "distinct", "impossible length rejected", "type refused"]

ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def cases(tier):
    top = 96 if tier == "quick" else 256
    out = []
    step = 16
    for a in range(0, top + 1, step):
        out.append(case(roundtrip, lo=a, hi=min(a + step - 1, top)))
    for n in (127, 128, 255, 256, 512, 1025, 4097) if tier == "quick" else (257, 512, 1023, 1024, 1025, 2048, 4097, 8192):
        out.append(case(roundtrip, lo=n, hi=n))
    for n in range(0, 10 if tier == "quick" else 40):
        out.append(case(distinct, n=n))
    for n in range(0, 6 if tier == "quick" else 8):
        out.append(case(arbitrary_text, n=n, weight=5 + n))
    out.append(case(types))
    return out


def roundtrip(h, lo, hi):
    from age.primitives.encode import decode, encode
    n = h.choose("n", range(lo, hi + 1))
    data = h.bytes("data", n)
    text = encode(data)
    h.check(isinstance(text, str), "round trip")
    h.check(len(text) == -(-4 * n // 3), "length")
    h.check(h.all(*[c in ALPHABET for c in text]), "alphabet")
    h.check(decode(text) == data, "round trip")


def distinct(h, n):
    from age.primitives.encode import encode
    a = h.bytes("a", n)
    b = h.bytes("b", n)
    h.check(h.implies(encode(a) == encode(b), a == b), "distinct")


def arbitrary_text(h, n):
    """Whatever is accepted decodes to the value of its alphabet characters; one left-over character is refused."""
    from age.primitives.encode import decode, encode
    text = h.text("text", n, hi=0xFF)
    data, err = h.run(decode, text)
    if err is not None:
        h.check(isinstance(err, ValueError), "only ValueError")
        return
    h.check(isinstance(data, bytes), "bytes returned")
    if h.decide(h.all(*[c in ALPHABET for c in text])):
        h.check(n % 4 != 1, "impossible length rejected")
        h.check(len(data) == 3 * n // 4, "decoded length")
        h.check(encode(data)[:-1] == text[:len(encode(data)) - 1], "decoded value")


def types(h):
    from age.primitives.encode import decode, encode
    for bad in (None, 5, "text", ["a"], 1.5, bytearray(b"text"), memoryview(b"text"), "", 0, False, []):
        _, err = h.run(encode, bad)
        h.check(isinstance(err, TypeError), "type refused")
    for bad in (None, 5, b"text", ["a"], 1.5, bytearray(b"text"), b"", 0, False, []):
        _, err = h.run(decode, bad)
        h.check(isinstance(err, TypeError), "type refused")
    s = h.bytes("s", 4)
    _, err = h.run(decode, s)
    h.check(isinstance(err, TypeError), "type refused")
    t = h.text("t", 4)
    _, err = h.run(encode, t)
    h.check(isinstance(err, TypeError), "type refused")
