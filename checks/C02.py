"""C02: a modified payload is never accepted."""
from checks.C01 import K
from checks.lib import case

B = K + 16
BOUNDS = {"quick": {"message": "generic plaintexts of every length in 0..2*65536+1 (symbolic length), all-symbolic plaintexts of 0..24 bytes", "key": "every 32-byte key",
                    "modification": "every prefix; every removed interval; every inserted or appended generic string of 1..65568 bytes, every replaced byte, each at every position; every "
                                    "sequence of 0..2 pieces out of the chunks of the message, of another message under another key and generic strings of 1..65552 bytes, and of 3 pieces without the latter; two chunks 1, 2, 4 .. 256 apart swapped or repeated; every other payload of the same length for the all-symbolic plaintexts; every other key"},
          "thorough": {"message": "lengths up to 4*65536+1, all-symbolic 0..64 bytes", "modification": "sequences of 0..3 (without generic strings 4..5) pieces, the rest as quick", "key": "as quick"}}
OUTSIDE = ["longer messages", "forging ChaCha20-Poly1305 (ideal: opens exactly what was sealed)", "two messages under the same payload key (excluded by C13)"]
ASSUMPTIONS = ["long contents are generic: no two different slices are equal"]
EXPECT_LABELS = ["truncation rejected", "removal rejected", "insertion rejected", "extension rejected", "replaced byte rejected",
                 "other chunk sequence rejected", "other payload rejected", "other key rejected"]


def cases(tier):
    q = tier == "quick"
    out = []
    for k in range(0, 3 if q else 5):
        size = (0, 1) if k == 0 else ((k - 1) * K + 1, k * K)
        for fn in (truncated, removed, inserted, extended, replaced, wrong_key):
            if k == 0 and fn in (removed,):
                continue
            out.append(case(fn, lo=size[0], hi=size[1], weight=k + 1))
    for n in (1, 2) if q else (1, 2, 3):
        for m in range(0, 3 if q else 4):
            out.append(case(sequence, chunks=n, m=m, weight=4 ** m))
        for m in (3,) if q else (4, 5):
            out.append(case(sequence, chunks=n, m=m, junk=0, weight=4 ** m // 2))
    for n in range(0, 25 if q else 65, 8):
        out.append(case(other, n=n))
    out.append(case(nothing))
    for step in (1, 2, 4, 8, 16, 32, 64, 128, 256):
        out.append(case(swapped, step=step, witnesses=1, weight=step))
    return out


def sealed(h, lo, hi, tag=""):
    from age.stream import stream_encrypt
    key = h.bytes("key" + tag, 32)
    data = h.blob("data" + tag, lo, hi)
    ct, err = h.run(stream_encrypt, key, data)
    h.assume(err is None)
    return key, data, ct


def refused(h, key, payload, label):
    from age.stream import stream_decrypt
    got, err = h.run(stream_decrypt, key, payload)
    h.check(err is not None, label)


def truncated(h, lo, hi):
    key, data, ct = sealed(h, lo, hi)
    cut = h.int("cut", 0, hi + 16 * (hi // K + 1))
    h.assume(cut < len(ct))
    refused(h, key, ct[:cut], "truncation rejected")


def removed(h, lo, hi):
    key, data, ct = sealed(h, lo, hi)
    top = hi + 16 * (hi // K + 1)
    a, b = h.int("a", 0, top), h.int("b", 0, top)
    h.assume(h.all(a < b, b <= len(ct)))
    refused(h, key, ct[:a] + ct[b:], "removal rejected")


def inserted(h, lo, hi):
    key, data, ct = sealed(h, lo, hi)
    a = h.int("a", 0, hi + 16 * (hi // K + 1))
    h.assume(a <= len(ct))
    junk = h.blob("junk", 1, B + 16, origin="junk")
    refused(h, key, ct[:a] + junk + ct[a:], "insertion rejected")


def extended(h, lo, hi):
    key, data, ct = sealed(h, lo, hi)
    how = h.choose("how", ["bytes", "itself", "part"])
    if how == "bytes":
        more = h.bytes("more", h.choose("n", [1, 15, 16, 17]))
    elif how == "itself":
        more = ct
    else:
        a = h.int("a", 0, hi + 16 * (hi // K + 1))
        h.assume(a < len(ct))
        more = ct[a:]
    refused(h, key, ct + more, "extension rejected")


def replaced(h, lo, hi):
    key, data, ct = sealed(h, lo, hi)
    a = h.int("a", 0, hi + 16 * (hi // K + 1))
    h.assume(a < len(ct))
    x = h.bytes("x", 1)
    h.assume(h.no(x == ct[a:a + 1]))
    refused(h, key, ct[:a] + x + ct[a + 1:], "replaced byte rejected")


def wrong_key(h, lo, hi):
    key, data, ct = sealed(h, lo, hi)
    refused(h, h.other("key2", key), ct, "other key rejected")


def sequence(h, chunks, m, junk=1):
    key, data, ct = sealed(h, (chunks - 1) * K + 1, chunks * K)
    key2, data2, ct2 = sealed(h, K + 1, 2 * K, "2")
    h.assume(h.no(key == key2))
    pieces = [("m", i) for i in range(chunks)] + [("o", i) for i in range(2)] + [("junk", 0)] * junk
    picked = [h.choose("piece%d" % i, pieces) for i in range(m)]
    h.assume(picked != pieces[:chunks])
    out = b""
    for i, (what, k) in enumerate(picked):
        if what == "junk":
            out = out + h.blob("junk%d" % i, 1, B, origin="junk")
        else:
            out = out + (ct if what == "m" else ct2)[k * B:(k + 1) * B]
    refused(h, key, out, "other chunk sequence rejected")


def other(h, n):
    """Every other payload of the same and of neighbouring lengths."""
    from age.stream import stream_encrypt
    key = h.bytes("key", 32)
    data = h.bytes("data", n)
    ct = stream_encrypt(key, data)
    how = h.choose("how", ["same length", "shorter", "longer", "free"])
    if how == "same length":
        bad = h.other("ct", ct)
    elif how == "shorter":
        bad = h.bytes("bad", n + 15)
    elif how == "longer":
        bad = h.bytes("bad", n + 17)
    else:
        bad = h.bytes("bad", h.choose("k", range(0, 18)))
        h.assume(h.no(bad == ct))
    refused(h, key, bad, "other payload rejected")


def swapped(h, step):
    """Two chunks that lie `step` apart change places, or one takes the other's place."""
    key, data, ct = sealed(h, step * K + K + 1, step * K + 2 * K)
    at = h.choose("at", [0, 1])
    if at + step > step:
        h.assume(len(ct) == (step + 2) * B)
    how = h.choose("how", ["swap", "repeat first", "repeat second"])
    a, b = ct[at * B:(at + 1) * B], ct[(at + step) * B:(at + step + 1) * B]
    if how == "repeat first":
        b = a
    elif how == "repeat second":
        a = b
    new = ct[:at * B] + b + ct[(at + 1) * B:(at + step) * B] + a + ct[(at + step + 1) * B:]
    refused(h, key, new, "other chunk sequence rejected")


def nothing(h):
    refused(h, h.bytes("key", 32), b"", "truncation rejected")
