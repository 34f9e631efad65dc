"""C18: age key strings round-trip and cannot be confused."""
from checks.lib import case

BOUNDS = {"quick": {"key": "every 32-byte value, secret and public", "payload length": "every payload of 0..40 bytes (all bytes symbolic)",
                    "human-readable part": "every valid lower-case part of 0..4 characters, both own prefixes, and every one-character change of them"},
          "thorough": {"payload length": "every payload of 0..64 bytes", "human-readable part": "0..8 characters", "rest": "as quick"}}
OUTSIDE = ["strings that are no bech32 strings at all (C16)"]
EXPECT_LABELS = ["secret round trip", "public round trip", "other prefix rejected", "other length rejected", "form"]
ALPHABET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
HRP_CHARS = "".join(chr(c) for c in range(33, 127) if not 65 <= c <= 90)


def cases(tier):
    top = 40 if tier == "quick" else 64
    out = [case(secret), case(public), case(swapped)]
    for part in ("secret", "public"):
        for a in range(0, top + 1, 8):
            out.append(case(lengths, part=part, lo=a, hi=min(a + 7, top)))
        out += [case(prefix, part=part, n=n) for n in range(0 if tier == "thorough" else 1, 5 if tier == "quick" else 9)]
        out += [case(changed_prefix, part=part, weight=20)]
    return out


def same_case_up(text):
    return text.upper()


def secret(h):
    from age.keys.agekey import AgePrivateKey
    raw = h.bytes("raw", 32)
    k = AgePrivateKey.from_private_bytes(raw)
    s = k.private_string()
    h.check(s[:16] == "AGE-SECRET-KEY-1", "form")
    h.check(len(s) == 16 + 52 + 6, "form")
    h.check(h.all(*[c in ALPHABET.upper() for c in s[16:]]), "form")
    for text in (s, s.lower()):
        k2, err = h.run(AgePrivateKey.from_private_string, text)
        h.check(err is None, "secret round trip")
        h.check(k2.private_bytes() == raw, "secret round trip")
        h.check(k2.private_string() == s, "secret round trip")


def public(h):
    from age.keys.agekey import AgePublicKey
    raw = h.bytes("raw", 32)
    k = AgePublicKey.from_public_bytes(raw)
    s = k.public_string()
    h.check(s[:4] == "age1", "form")
    h.check(len(s) == 4 + 52 + 6, "form")
    h.check(h.all(*[c in ALPHABET for c in s[4:]]), "form")
    for text in (s, s.upper()):
        k2, err = h.run(AgePublicKey.from_public_string, text)
        h.check(err is None, "public round trip")
        h.check(k2.public_bytes() == raw, "public round trip")
        h.check(k2 == k, "public round trip")
        h.check(k2.public_string() == s, "public round trip")


def swapped(h):
    from age.keys.agekey import AgePrivateKey, AgePublicKey
    raw = h.bytes("raw", 32)
    sec = AgePrivateKey.from_private_bytes(raw).private_string()
    pub = AgePublicKey.from_public_bytes(raw).public_string()
    up = h.bool("upper")
    if h.decide(up):
        sec, pub = sec.upper(), pub.upper()
    else:
        sec, pub = sec.lower(), pub.lower()
    _, err = h.run(AgePrivateKey.from_private_string, pub)
    h.check(isinstance(err, ValueError), "other prefix rejected")
    _, err = h.run(AgePublicKey.from_public_string, sec)
    h.check(isinstance(err, ValueError), "other prefix rejected")


def reader(part):
    from age.keys.agekey import AgePrivateKey, AgePublicKey
    return (AgePrivateKey.from_private_string, "age-secret-key-") if part == "secret" else (AgePublicKey.from_public_string, "age")


def lengths(h, part, lo, hi):
    from age.primitives.bech32 import bech32_encode
    read, hrp = reader(part)
    n = h.choose("n", [k for k in range(lo, hi + 1) if k != 32])
    s, err = h.run(bech32_encode, hrp, h.bytes("raw", n))
    if err is not None:
        h.cover("not encodable")
        return
    _, err = h.run(read, s)
    h.check(isinstance(err, ValueError), "other length rejected")


def prefix(h, part, n):
    from age.primitives.bech32 import bech32_encode
    read, hrp = reader(part)
    other = h.text("hrp", n, chars=HRP_CHARS)
    h.assume(h.no(other == hrp))
    s, err = h.run(bech32_encode, other, h.bytes("raw", 32))
    if err is not None:
        h.cover("not encodable")
        return
    _, err = h.run(read, s)
    h.check(isinstance(err, ValueError), "other prefix rejected")


def changed_prefix(h, part):
    """The own prefix with one character replaced, added in front or behind, or dropped."""
    from age.primitives.bech32 import bech32_encode
    read, hrp = reader(part)
    how = h.choose("how", ["replace", "front", "back", "drop"])
    c = h.text("c", 1, chars=HRP_CHARS)
    k = h.choose("k", range(len(hrp))) if how in ("replace", "drop") else 0
    if how == "replace":
        h.assume(h.no(c == hrp[k]))
        other = hrp[:k] + c + hrp[k + 1:]
    elif how == "front":
        other = c + hrp
    elif how == "back":
        other = hrp + c
    else:
        other = hrp[:k] + hrp[k + 1:]
    s, err = h.run(bech32_encode, other, h.bytes("raw", 32))
    if err is not None:
        h.cover("not encodable")
        return
    _, err = h.run(read, s)
    h.check(isinstance(err, ValueError), "other prefix rejected")
