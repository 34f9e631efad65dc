"""C10: an ssh-ed25519 stanza opens for its Ed25519 key and for no other."""
from checks.lib import case, opened

BOUNDS = {"quick": {"keys": "every pair of 32-byte Ed25519 seeds", "file key": "16 symbolic bytes (and 0, 1, 32)", "ephemeral secret": "every value of the random draw",
                    "fingerprint": "every other 4-byte value and values of 0, 3, 5, 32 bytes", "altered share": "every other 32-byte value; 0, 31, 33 bytes",
                    "altered wrapped key": "every other 32-byte value; 0, 15, 16, 31, 33 bytes"}}
BOUNDS["thorough"] = BOUNDS["quick"]
OUTSIDE = ["the group laws of Curve25519 and its map from Ed25519 (modelled as a free commutative action, the two conversions agreeing)",
           "ChaCha20-Poly1305 (ideal)"]
EXPECT_LABELS = ["round trip", "text round trip", "conversions agree", "other fingerprint rejected", "other key rejected",
                 "altered share rejected", "altered wrapped key rejected", "fingerprint is of the public key"]


def cases(tier):
    out = [case(roundtrip, n=n) for n in (0, 1, 16, 32)]
    out += [case(text), case(conversion), case(wrong_key, forged=1), case(wrong_key, forged=1, via=1)]
    out += [case(f, via=via) for f in (wrong_fingerprint, wrong_key, altered_share, altered_body, resized) for via in (0, 1)]
    return out


def setup(h, n=16):
    from age.keys.ed25519 import Ed25519PrivateKey
    sk = load(h.bytes("seed", 32))
    return sk, sk.public_key(), h.bytes("fk", n)


def load(seed):
    from age.keys.ed25519 import Ed25519PrivateKey
    from cryptography.hazmat.primitives.asymmetric import ed25519
    return Ed25519PrivateKey(ed25519.Ed25519PrivateKey.from_private_bytes(seed))


def rejected(h, err, label):
    from cryptography.exceptions import InvalidTag
    import nacl.exceptions
    h.check(isinstance(err, (InvalidTag, ValueError, nacl.exceptions.RuntimeError)), label)


def roundtrip(h, n):
    from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
    import hashlib
    sk, pk, fk = setup(h, n)
    fp, share, body = ssh_ed25519_encrypt_file_key(pk, fk)
    h.check(len(share) == 32 and len(body) == n + 16, "round trip")
    h.check(ssh_ed25519_decrypt_file_key(sk, fp, share, body) == fk, "round trip")
    h.check(fp == hashlib.sha256(pk.binary_encoding()).digest()[:4], "fingerprint is of the public key")


def text(h):
    from age.recipients.helpers import generate_recipient_from_key, get_recipient
    sk, pk, fk = setup(h)
    r = generate_recipient_from_key(pk, fk)
    args, body = r.dump()
    h.check(r.TAG == "ssh-ed25519" and len(args) == 2, "text round trip")
    r2 = get_recipient(r.TAG, args, body)
    h.check(r2.decrypt(sk) == fk, "text round trip")


def conversion(h):
    sk, pk, fk = setup(h)
    a = sk.to_age_private_key().public_key()
    b = pk.to_age_public_key()
    h.check(a.public_bytes() == b.public_bytes(), "conversions agree")
    h.check(a == b, "conversions agree")


def wrong_fingerprint(h, via=0):
    from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
    sk, pk, fk = setup(h)
    fp, share, body = ssh_ed25519_encrypt_file_key(pk, fk)
    n = h.choose("n", [4, 0, 3, 5, 32])
    if n == 4:
        bad = h.other("fp", fp)
    elif n == 3:
        bad = fp[:3]
    elif n == 5:
        bad = fp + h.bytes("more", 1)
    else:
        bad = h.bytes("fp2", n)
    _, err = opened(h, via, "ssh-ed25519", ssh_ed25519_decrypt_file_key, sk, bad, share, body)
    h.check(isinstance(err, ValueError), "other fingerprint rejected")


def wrong_key(h, forged=0, via=0):
    from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
    import hashlib
    sk, pk, fk = setup(h)
    sk2 = load(h.bytes("seed2", 32))
    pk2 = sk2.public_key()
    h.assume(h.no(pk2.binary_encoding() == pk.binary_encoding()))
    fp, share, body = ssh_ed25519_encrypt_file_key(pk, fk)
    if forged:
        fp = hashlib.sha256(pk2.binary_encoding()).digest()[:4]
    _, err = opened(h, via, "ssh-ed25519", ssh_ed25519_decrypt_file_key, sk2, fp, share, body)
    rejected(h, err, "other key rejected")


def altered_share(h, via=0):
    from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
    sk, pk, fk = setup(h)
    fp, share, body = ssh_ed25519_encrypt_file_key(pk, fk)
    _, err = opened(h, via, "ssh-ed25519", ssh_ed25519_decrypt_file_key, sk, fp, h.other("share", share), body)
    rejected(h, err, "altered share rejected")


def altered_body(h, via=0):
    from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
    sk, pk, fk = setup(h)
    fp, share, body = ssh_ed25519_encrypt_file_key(pk, fk)
    _, err = opened(h, via, "ssh-ed25519", ssh_ed25519_decrypt_file_key, sk, fp, share, h.other("body", body))
    rejected(h, err, "altered wrapped key rejected")


def resized(h, via=0):
    from age.algorithms.ssh_ed25519 import ssh_ed25519_decrypt_file_key, ssh_ed25519_encrypt_file_key
    sk, pk, fk = setup(h)
    fp, share, body = ssh_ed25519_encrypt_file_key(pk, fk)
    how = h.choose("how", [0, 1, 2, 3])
    if how == 0:
        _, err = opened(h, via, "ssh-ed25519", ssh_ed25519_decrypt_file_key, sk, fp, share, h.bytes("b", h.choose("n", [0, 15, 16, 31, 33])))
        rejected(h, err, "altered wrapped key rejected")
        return
    if how == 1:
        share2 = share[:31]
    elif how == 2:
        share2 = share + h.bytes("more", 1)
    else:
        share2 = b""
    _, err = opened(h, via, "ssh-ed25519", ssh_ed25519_decrypt_file_key, sk, fp, share2, body)
    h.check(err is not None, "altered share rejected")
