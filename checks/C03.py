"""C03: no nonce is reused within a payload and counters never wrap."""
from checks.C01 import K, reference
from checks.lib import case

BOUNDS = {"quick": {"counter": "every integer -2^90..2^90 (symbolic)", "plaintext": "generic byte strings of every length 0..12*65536+1 (symbolic length), and 64, 256 and 300 chunks, or one byte more"},
          "thorough": {"counter": "every integer -2^120..2^120", "plaintext": "generic byte strings of every length 0..40*65536+1, and 64..1024 chunks, or one byte more"}}
OUTSIDE = ["longer plaintexts (the counter itself is covered for every value)"]
ASSUMPTIONS = ["long plaintexts are generic: no two different slices of them are equal (the code compares no content)"]
EXPECT_LABELS = ["nonces in use", "nonce layout", "counter refused", "distinct"]


def cases(tier):
    q = tier == "quick"
    out = [case(counter, bits=90 if q else 120), case(pairs)]
    out += [case(seals, lo=k * K + (1 if k else 0), hi=(k + 1) * K + 1, weight=k + 1) for k in range(0, 12 if q else 40)]
    # longer payloads, past the counters that fit one byte (thorough: eleven bits)
    out += [case(seals, lo=k * K, hi=k * K + 1, weight=99) for k in ([64, 256, 300] if q else [64, 128, 256, 257, 511, 512, 1024])]
    return out


def counter(h, bits):
    from age.stream import _pack_nonce
    n = h.int("n", -2 ** bits, 2 ** bits)
    last = h.choose("last", [False, True])
    got, err = h.run(_pack_nonce, n, last_block=last)
    if h.decide(h.any(n < 0, n >= 2 ** 88)):
        h.check(err is not None, "counter refused")
        return
    h.check(err is None, "nonce layout")
    h.check(len(got) == 12, "nonce layout")
    h.check(got[11] == (1 if last else 0), "nonce layout")
    v = 0
    for i in range(11):
        v = v * 256 + got[i]
    h.check(v == n, "nonce layout")


def pairs(h):
    """Different (counter, final) pairs have different nonces."""
    from age.stream import _pack_nonce
    a, b = h.int("a", 0, 2 ** 88 - 1), h.int("b", 0, 2 ** 88 - 1)
    la, lb = h.choose("la", [False, True]), h.choose("lb", [False, True])
    x, err = h.run(_pack_nonce, a, last_block=la)
    h.check(err is None, "nonce layout")
    y, err = h.run(_pack_nonce, b, last_block=lb)
    h.check(err is None, "nonce layout")
    h.check(h.any(h.no(x == y), a == b if la == lb else False), "distinct")


def seals(h, lo, hi):
    """Every chunk is sealed under the nonce of its index (the ciphertext says so)."""
    from age.stream import stream_encrypt
    key = h.bytes("key", 32)
    data = h.blob("data", lo, hi)
    ct, err = h.run(stream_encrypt, key, data)
    h.check(err is None, "nonces in use")
    if hasattr(h, "seals"):
        nonces = [(s[0], s[1]) for s in h.seals()[:12]]
        for i in range(len(nonces)):
            for j in range(i):
                h.check(h.no(h.all(nonces[i][0] == nonces[j][0], nonces[i][1] == nonces[j][1])), "distinct")
    want, chunks = reference(h, key, data)
    h.check(ct == want, "nonces in use")
