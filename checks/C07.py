"""C07: an X25519 stanza opens for its identity and for no other."""
from checks.lib import case, opened

BOUNDS = {"quick": {"identities": "every pair of 32-byte secrets", "file key": "16 symbolic bytes (and 0, 1, 32, 33)", "ephemeral secret": "every value of the random draw",
                    "altered share": "every other 32-byte value and every value of 0, 31 and 33 bytes", "altered wrapped key": "every other value of 32 bytes and every value of 0, 15, 16, 31, 33 bytes"}}
BOUNDS["thorough"] = BOUNDS["quick"]
OUTSIDE = ["file keys longer than 33 bytes", "the group law of Curve25519 (modelled as a free commutative action of clamped scalars)",
           "ChaCha20-Poly1305 (ideal: opens exactly what was sealed)"]
EXPECT_LABELS = ["round trip", "text round trip", "other identity rejected", "altered share rejected",
                 "altered wrapped key rejected", "both altered rejected"]


def cases(tier):
    out = [case(roundtrip, n=n) for n in (0, 1, 16, 32, 33)]
    out += [case(text, n=n) for n in (16, 1)]
    for via in (0, 1):
        out += [case(f, via=via) for f in (wrong_identity, altered_share, altered_body, resized, both)]
    return out


def setup(h, n=16):
    from age.keys.agekey import AgePrivateKey
    sk = AgePrivateKey.from_private_bytes(h.bytes("sk", 32))
    return sk, sk.public_key(), h.bytes("fk", n)


def rejected(h, err, label):
    from cryptography.exceptions import InvalidTag
    import nacl.exceptions
    # a low-order share is refused by the curve library before any key is derived
    h.check(isinstance(err, (InvalidTag, nacl.exceptions.RuntimeError)), label)


def roundtrip(h, n):
    from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
    sk, pk, fk = setup(h, n)
    share, body = x25519_encrypt_file_key(pk, fk)
    h.check(len(share) == 32 and len(body) == n + 16, "round trip")
    h.check(x25519_decrypt_file_key(sk, share, body) == fk, "round trip")


def text(h, n):
    from age.recipients.helpers import generate_recipient_from_key, get_recipient
    sk, pk, fk = setup(h, n)
    r = generate_recipient_from_key(pk, fk)
    args, body = r.dump()
    h.check(r.TAG == "X25519" and len(args) == 1, "text round trip")
    h.check(isinstance(args[0], str) and isinstance(body, str), "text round trip")
    r2 = get_recipient(r.TAG, args, body)
    h.check(r2.decrypt(sk) == fk, "text round trip")
    h.check(r.decrypt(sk) == fk, "text round trip")


def wrong_identity(h, via=0):
    from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
    from age.keys.agekey import AgePrivateKey
    sk, pk, fk = setup(h)
    other = AgePrivateKey.from_private_bytes(h.other("sk2", sk.private_bytes()))
    h.assume(h.no(other.public_key().public_bytes() == pk.public_bytes()))
    share, body = x25519_encrypt_file_key(pk, fk)
    _, err = opened(h, via, "X25519", x25519_decrypt_file_key, other, share, body)
    rejected(h, err, "other identity rejected")


def altered_share(h, via=0):
    from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
    sk, pk, fk = setup(h)
    share, body = x25519_encrypt_file_key(pk, fk)
    _, err = opened(h, via, "X25519", x25519_decrypt_file_key, sk, h.other("share", share), body)
    rejected(h, err, "altered share rejected")


def altered_body(h, via=0):
    from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
    sk, pk, fk = setup(h)
    share, body = x25519_encrypt_file_key(pk, fk)
    _, err = opened(h, via, "X25519", x25519_decrypt_file_key, sk, share, h.other("body", body))
    rejected(h, err, "altered wrapped key rejected")


def both(h, via=0):
    """Any share and any wrapped key but the genuine pair."""
    from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
    sk, pk, fk = setup(h)
    share, body = x25519_encrypt_file_key(pk, fk)
    if h.choose("mix", [0, 1]):
        _, err = opened(h, via, "X25519", x25519_decrypt_file_key, sk, h.other("share", share), h.other("body", body))
    else:
        share2, body2 = x25519_encrypt_file_key(pk, h.bytes("fk2", 16))
        h.assume(h.no(share == share2))         # clamping maps eight secrets to one scalar
        if h.choose("which", [0, 1]):
            share2, body2 = share, body2
        else:
            share2, body2 = share2, body
        _, err = opened(h, via, "X25519", x25519_decrypt_file_key, sk, share2, body2)
    rejected(h, err, "both altered rejected")


def resized(h, via=0):
    from age.algorithms.x25519 import x25519_decrypt_file_key, x25519_encrypt_file_key
    sk, pk, fk = setup(h)
    share, body = x25519_encrypt_file_key(pk, fk)
    how = h.choose("how", [0, 1, 2, 3])
    if how == 0:
        n = h.choose("n", [0, 15, 16, 31, 33])
        _, err = opened(h, via, "X25519", x25519_decrypt_file_key, sk, share, h.bytes("body", n))
        rejected(h, err, "altered wrapped key rejected")
        return
    if how == 1:
        share2 = share[:31]
    elif how == 2:
        share2 = share + h.bytes("more", 1)
    else:
        share2 = b""
    _, err = opened(h, via, "X25519", x25519_decrypt_file_key, sk, share2, body)
    h.check(err is not None, "altered share rejected")
