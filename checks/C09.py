"""C09: an ssh-rsa stanza opens for its RSA key and for no other."""
from checks.lib import case, opened

BOUNDS = {"quick": {"keys": "every pair of distinct 1024- or 2048-bit moduli (exponent 65537)", "file key": "16 symbolic bytes (and 0, 1, 62)",
                    "fingerprint": "every other 4-byte value and values of 0, 3, 5, 32 bytes", "altered body": "every other value of the same length; 0, 1, size-1, size+1 bytes"}}
BOUNDS["thorough"] = BOUNDS["quick"]
OUTSIDE = ["other key sizes and exponents", "RSA-OAEP itself (ideal: decrypts exactly what was encrypted under the same key, hash and label)"]
EXPECT_LABELS = ["round trip", "text round trip", "other fingerprint rejected", "other key rejected", "altered body rejected",
                 "fingerprint is of the public key"]


def cases(tier):
    out = []
    for bits in (1024, 2048):
        out += [case(roundtrip, bits=bits, n=n) for n in (0, 1, 16, 62)]
        out += [case(text, bits=bits)]
        out += [case(f, bits=bits, via=via) for f in (wrong_fingerprint, altered, resized) for via in (0, 1)]
    out += [case(wrong_key), case(wrong_key, via=1)]
    return out


def setup(h, bits, n=16, i=0):
    from age.keys.rsa import RSAPrivateKey
    key = RSAPrivateKey(h.rsa_generic(i, bits))
    return key, key.public_key(), h.bytes("fk", n)


def rejected(h, err, label):
    h.check(isinstance(err, ValueError), label)


def roundtrip(h, bits, n):
    from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
    import hashlib
    sk, pk, fk = setup(h, bits, n)
    fp, body = ssh_rsa_encrypt_file_key(pk, fk)
    h.check(ssh_rsa_decrypt_file_key(sk, fp, body) == fk, "round trip")
    h.check(fp == hashlib.sha256(pk.binary_encoding()).digest()[:4], "fingerprint is of the public key")


def text(h, bits):
    from age.recipients.helpers import generate_recipient_from_key, get_recipient
    sk, pk, fk = setup(h, bits)
    r = generate_recipient_from_key(pk, fk)
    args, body = r.dump()
    h.check(r.TAG == "ssh-rsa" and len(args) == 1, "text round trip")
    r2 = get_recipient(r.TAG, args, body)
    h.check(r2.decrypt(sk) == fk, "text round trip")


def wrong_fingerprint(h, bits, via=0):
    from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
    sk, pk, fk = setup(h, bits)
    fp, body = ssh_rsa_encrypt_file_key(pk, fk)
    n = h.choose("n", [4, 0, 3, 5, 32])
    if n == 4:
        bad = h.other("fp", fp)
    elif n == 3:
        bad = fp[:3]
    elif n == 5:
        bad = fp + h.bytes("more", 1)
    else:
        bad = h.bytes("fp2", n)
    _, err = opened(h, via, "ssh-rsa", ssh_rsa_decrypt_file_key, sk, bad, body)
    rejected(h, err, "other fingerprint rejected")


def wrong_key(h, via=0):
    """The stanza of another key, also with the fingerprint replaced."""
    from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
    sk, pk, fk = setup(h, 1024)
    sk2, pk2, fk2 = setup(h, h.choose("bits", [1024, 2048]), 16, 1)
    fp, body = ssh_rsa_encrypt_file_key(pk, fk)
    fp2, body2 = ssh_rsa_encrypt_file_key(pk2, fk2)
    used = h.choose("fingerprint", [0, 1])
    _, err = opened(h, via, "ssh-rsa", ssh_rsa_decrypt_file_key, sk2, fp2 if used else fp, body)
    rejected(h, err, "other key rejected")


def altered(h, bits, via=0):
    from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
    sk, pk, fk = setup(h, bits)
    fp, body = ssh_rsa_encrypt_file_key(pk, fk)
    _, err = opened(h, via, "ssh-rsa", ssh_rsa_decrypt_file_key, sk, fp, h.other("body", body))
    rejected(h, err, "altered body rejected")


def resized(h, bits, via=0):
    from age.algorithms.ssh_rsa import ssh_rsa_decrypt_file_key, ssh_rsa_encrypt_file_key
    sk, pk, fk = setup(h, bits)
    fp, body = ssh_rsa_encrypt_file_key(pk, fk)
    how = h.choose("how", [0, 1, 2, 3])
    if how == 0:
        body2 = b""
    elif how == 1:
        body2 = body[:1]
    elif how == 2:
        body2 = body[:-1]
    else:
        body2 = body + h.bytes("more", 1)
    _, err = opened(h, via, "ssh-rsa", ssh_rsa_decrypt_file_key, sk, fp, body2)
    rejected(h, err, "altered body rejected")
