"""C01: payload encryption round-trips at every length."""
from checks.lib import case

K = 65536
BOUNDS = {"quick": {"key": "every 32-byte key", "plaintext": "every byte string of 0..96 bytes (all bytes symbolic), and generic byte strings of every length 0..12*65536+1 (symbolic length), and of 64, 256 and 300 chunks or one byte more"},
          "thorough": {"key": "every 32-byte key", "plaintext": "every byte string of 0..160 bytes, and generic byte strings of every length 0..40*65536+1, and of 64..1024 chunks or one byte more"}}
OUTSIDE = ["longer plaintexts", "ChaCha20-Poly1305 itself (ideal)"]
ASSUMPTIONS = ["long plaintexts are generic: no two different slices of them are equal (the code compares no content)"]
EXPECT_LABELS = ["round trip", "chunk layout", "length"]


def cases(tier):
    q = tier == "quick"
    out = [case(small, lo=a, hi=a + 7) for a in range(0, 96 if q else 160, 8)]
    for k in range(0, 12 if q else 40):
        # boundaries of both sides are inside the ranges: (k*64K, (k+1)*64K] and one beyond
        out.append(case(large, lo=k * K + (1 if k else 0), hi=(k + 1) * K + 1, weight=k + 1))
    for k in [64, 256, 300] if q else [64, 127, 128, 255, 256, 257, 512, 1024]:
        out.append(case(large, lo=k * K, hi=k * K + 1, weight=99))
    return out


def reference(h, key, data):
    """The payload by the definition of the property."""
    from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
    n = len(data)
    out = b""
    i = 0
    while True:
        last = h.decide(n <= (i + 1) * K)
        nonce = i.to_bytes(11, "big") + (b"\x01" if last else b"\x00")
        out = out + ChaCha20Poly1305(key).encrypt(nonce, data[i * K:(i + 1) * K], b"")
        i += 1
        if last:
            return out, i


def judge(h, data):
    from age.stream import stream_decrypt, stream_encrypt
    key = h.bytes("key", 32)
    ct, err = h.run(stream_encrypt, key, data)
    h.check(err is None, "round trip")
    want, chunks = reference(h, key, data)
    h.check(len(ct) == len(data) + 16 * chunks, "length")
    h.check(ct == want, "chunk layout")
    got, err = h.run(stream_decrypt, key, want)
    h.check(err is None, "round trip")
    h.check(got == data, "round trip")
    got, err = h.run(stream_decrypt, key, ct)
    h.check(err is None, "round trip")
    h.check(got == data, "round trip")


def small(h, lo, hi):
    judge(h, h.bytes("data", h.choose("n", range(lo, hi + 1))))


def large(h, lo, hi):
    judge(h, h.blob("data", lo, hi))
