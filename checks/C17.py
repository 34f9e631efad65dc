"""C17: corrupted bech32 key strings are detected."""
import itertools

from checks.lib import case

BOUNDS = {
    "quick": {"substitutions": "every set of up to 3 of the 58 data characters of a 32-byte key string replaced by "
                               "symbolic other characters, symbolic payload, both prefixes",
              "transpositions": "all 57 neighbouring pairs, symbolic payload"},
    "thorough": {"substitutions": "every set of up to 4, otherwise as quick", "transpositions": "as quick"},
}
OUTSIDE = ["insertions, deletions and errors in the human-readable part"]
EXPECT_LABELS = ["substitution detected", "transposition detected"]
CHARSET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
DATA = 58


def cases(tier):
    out = []
    for hrp in ("age", "age-secret-key-"):
        for k in ([1, 2, 3] if tier == "quick" else [1, 2, 3, 4]):
            if k < 3:
                out.append(case(substituted, hrp=hrp, k=k, first=None, last=None))
            else:
                step = 4 if k == 3 else 1
                for first in range(0, DATA - k + 1, step):
                    out.append(case(substituted, hrp=hrp, k=k, first=first, last=min(first + step - 1, DATA - k),
                                    solver_ms=600000, weight=100 - first))
        for part in range(4):
            out.append(case(swapped, hrp=hrp, part=part, weight=200))
    return out


def key_text(h, hrp):
    from age.primitives.bech32 import bech32_encode
    payload = h.bytes("payload", 32)
    return payload, bech32_encode(hrp, payload)


def parse(hrp):
    from age.keys.agekey import AgePrivateKey, AgePublicKey
    if hrp == "age":
        return AgePublicKey.from_public_string
    return AgePrivateKey.from_private_string


def judge(h, hrp, text, label):
    from age.primitives.bech32 import bech32_decode
    got, err = h.run(bech32_decode, text)
    h.check(isinstance(err, ValueError), label)
    if err is not None:
        got, err = h.run(parse(hrp), text)
        h.check(isinstance(err, ValueError), label)


def substituted(h, hrp, k, first, last):
    payload, text = key_text(h, hrp)
    lo = len(text) - DATA
    supports = [c for c in itertools.combinations(range(DATA), k) if first is None or first <= c[0] <= last]
    bad = text[:lo] + h.substitute("change", text[lo:], supports, CHARSET)
    judge(h, hrp, bad, "substitution detected")


def swapped(h, hrp, part):
    payload, text = key_text(h, hrp)
    lo = len(text) - DATA
    i = h.choose("pos", range(part, DATA - 1, 4))
    a, b = text[lo + i], text[lo + i + 1]
    h.assume(a != b)
    judge(h, hrp, text[:lo + i] + b + a + text[lo + i + 2:], "transposition detected")
