"""C29: keys compare equal exactly when they are the same key; secrets stay out of their representations."""
from checks.lib import case

BOUNDS = {"quick": {"key bytes": "every 32-byte value for age and Ed25519 keys, every 128-byte (thorough: also 256) modulus for RSA keys, exponents 3, 257, 259, 65537, 65539",
                    "passphrase": "every passphrase of 0, 1, 16 and 40 bytes (representation only)"}}
BOUNDS["thorough"] = BOUNDS["quick"]
OUTSIDE = ["SSH private keys, which define no equality of their own", "str() of a passphrase key, which is defined to be the passphrase"]
EXPECT_LABELS = ["equal iff same bytes", "symmetric", "equal keys hash equally", "other kinds differ", "representation without the secret"]


def cases(tier):
    out = [case(same_kind, kind=k) for k in ("agepub", "agepriv", "edpub", "rsapub")]
    out.append(case(rsa_exponents))
    out += [case(other_kinds, kind=k) for k in ("agepub", "agepriv", "edpub", "rsapub")]
    out += [case(secrets, kind=k) for k in ("agepriv", "edpriv", "rsapriv")]
    out += [case(password, n=n) for n in (0, 1, 16, 40)]
    if tier == "thorough":
        out.append(case(same_kind, kind="rsapub", bits=2048))
    return out


def make(h, kind, name, bits=1024, i=0):
    """(key, its bytes)"""
    from age.keys.agekey import AgePrivateKey, AgePublicKey
    from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
    from age.keys.rsa import RSAPrivateKey, RSAPublicKey
    from cryptography.hazmat.primitives.asymmetric import ed25519
    if kind == "agepub":
        b = h.bytes(name, 32)
        return AgePublicKey.from_public_bytes(b), b
    if kind == "agepriv":
        b = h.bytes(name, 32)
        return AgePrivateKey.from_private_bytes(b), b
    if kind == "edpub":
        b = h.bytes(name, 32)
        return Ed25519PublicKey(ed25519.Ed25519PublicKey.from_public_bytes(b)), b
    if kind == "edpriv":
        b = h.bytes(name, 32)
        return Ed25519PrivateKey(ed25519.Ed25519PrivateKey.from_private_bytes(b)), b
    if kind == "rsapub":
        k = h.rsa_generic(i, bits).public_key()
        return RSAPublicKey(k), k.public_numbers().n
    k = h.rsa_generic(i, bits)
    return RSAPrivateKey(k), None


def same_kind(h, kind, bits=1024):
    a, ab = make(h, kind, "a", bits)
    which = h.choose("other", ["fresh", "same"])
    if which == "same":
        if kind == "agepub":
            from age.keys.agekey import AgePublicKey
            b, bb = AgePublicKey.from_public_bytes(ab), ab
        elif kind == "agepriv":
            from age.keys.agekey import AgePrivateKey
            b, bb = AgePrivateKey.from_private_bytes(ab), ab
        elif kind == "edpub":
            from age.keys.ed25519 import Ed25519PublicKey
            from cryptography.hazmat.primitives.asymmetric import ed25519
            b, bb = Ed25519PublicKey(ed25519.Ed25519PublicKey.from_public_bytes(ab)), ab
        else:
            from age.keys.rsa import RSAPublicKey
            b, bb = RSAPublicKey(h.rsa_public(a._key)), ab
    else:
        b, bb = make(h, kind, "b", bits, 1)
    r, same = a == b, ab == bb
    h.check(h.iff(r, same), "equal iff same bytes")
    h.check(h.iff(b == a, same), "symmetric")
    h.check(h.iff(a != b, h.no(same)), "equal iff same bytes")
    h.check(a == a, "equal iff same bytes")
    if h.decide(same):
        h.check(hash(a) == hash(b), "equal keys hash equally")
        h.check(len({a, b}) == 1, "equal keys hash equally")
    else:
        h.check(len({a, b}) == 2, "equal iff same bytes")
        h.check(b not in [a], "equal iff same bytes")


def rsa_exponents(h):
    """The same modulus with another exponent is another key."""
    from age.keys.rsa import RSAPublicKey
    k = h.rsa_generic(0, 1024)
    e, f = h.choose("exponents", [(65537, 3), (3, 65537), (257, 65537), (3, 259), (65537, 65539), (65537, 65537)])
    a, b = RSAPublicKey(h.rsa_public(k, e)), RSAPublicKey(h.rsa_public(k, f))
    h.check(h.iff(a == b, e == f), "equal iff same bytes")
    h.check(h.iff(a != b, e != f), "equal iff same bytes")
    h.check(len({a, b}) == (1 if e == f else 2), "equal iff same bytes")


def other_kinds(h, kind):
    from age.keys.password import PasswordKey
    a, ab = make(h, kind, "a")
    others = [None, 5, "age", ab, [ab], PasswordKey(b"pw")]
    for k in ("agepub", "agepriv", "edpub", "rsapub"):
        if k != kind:
            others.append(make(h, k, "b" + k, 1024, 2)[0])
    # the same 32 bytes under another kind
    if kind in ("agepub", "agepriv", "edpub"):
        from age.keys.agekey import AgePrivateKey, AgePublicKey
        from age.keys.ed25519 import Ed25519PublicKey
        from cryptography.hazmat.primitives.asymmetric import ed25519
        if kind != "agepub":
            others.append(AgePublicKey.from_public_bytes(ab))
        if kind != "agepriv":
            others.append(AgePrivateKey.from_private_bytes(ab))
        if kind != "edpub":
            others.append(Ed25519PublicKey(ed25519.Ed25519PublicKey.from_public_bytes(ab)))
    for o in others:
        h.check(h.no(a == o), "other kinds differ")
        h.check(h.no(o == a), "other kinds differ")
        h.check(a != o, "other kinds differ")


def secrets(h, kind):
    h.randomness("C29")
    k, b = make(h, kind, "k")
    for text in (repr(k), str(k), "%s" % k, f"{k}"):
        h.check(isinstance(text, str) and len(text) > 0, "representation without the secret")
        if kind == "agepriv":
            h.check(h.no(h.tainted(text, b, 4)), "representation without the secret")
            h.check(h.no(k.private_string() in text), "representation without the secret")
            h.check(h.no(k.private_string().lower() in text), "representation without the secret")
        elif kind == "edpriv":
            h.check(h.no(h.tainted(text, b, 4)), "representation without the secret")
        else:
            p = k.public_key()
            h.check(h.all(p.fingerprint() in text, len(text) < 200), "representation without the secret")


def password(h, n):
    """Two passphrases of a length: nothing in the representation tells them apart."""
    from age.keys.password import PasswordKey
    pw, other = h.bytes("pw", n), h.bytes("other", n)
    k = PasswordKey(pw)
    text = repr(k)
    if n >= 8:
        h.check(h.no(h.tainted(text, pw)), "representation without the secret")
    h.check(k.value == pw, "representation without the secret")
    k.value = other
    h.check(repr(k) == text, "representation without the secret")
