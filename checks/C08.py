"""C08: a passphrase stanza opens only for its passphrase, within the cost limit."""
from checks.lib import case, opened

BOUNDS = {"quick": {"passphrase": "all-symbolic bytes of length 0..8, 63..66, 73, 100, 129, 1025", "file key": "16 symbolic bytes (and 0, 1, 32)",
                    "work factor": "every integer -1000..1000 (symbolic), and every decimal text of 1..3 characters", "salt": "every value of the draw",
                    "altered": "every other 16-byte salt, salts of 0, 15, 17 bytes; every other 32-byte wrapped key; other lengths 0, 15, 16, 31, 33"}}
BOUNDS["thorough"] = dict(BOUNDS["quick"], **{"work factor": "every integer -10^6..10^6 (symbolic), and every decimal text of 1..4 characters"})
OUTSIDE = ["longer passphrases", "scrypt and HMAC themselves (uninterpreted, collision free; scrypt sees the passphrase as the HMAC key block, so trailing NUL bytes and hashing of long passphrases are not distinguished)"]
EXPECT_LABELS = ["round trip", "text round trip", "other passphrase rejected", "altered salt rejected",
                 "other work factor rejected", "altered wrapped key rejected", "cost refused on wrapping",
                 "cost refused on unwrapping", "no derivation beyond the limit", "cost of the text form"]


def cases(tier):
    big = tier == "thorough"
    out = [case(roundtrip, n=n) for n in (0, 1, 16, 32)]
    out += [case(text), case(other_password, sizes=[0, 1, 2, 3, 8], weight=5), case(other_password, sizes=[7, 63, 64, 65, 66], weight=5),
            case(other_password, sizes=[73, 100], weight=5), case(other_password, sizes=[129, 1025], weight=5),
            case(guard_wrap, top=10 ** 6 if big else 1000), case(guard_unwrap, top=10 ** 6 if big else 1000)]
    for via in (0, 1):
        out += [case(f, via=via) for f in (altered_salt, altered_cost, altered_body, resized)]
    out += [case(text_cost, n=n) for n in range(1, 5 if big else 4)]
    return out


def block(pw):
    """The HMAC key block scrypt's PBKDF2 makes of a passphrase."""
    import hashlib
    if len(pw) > 64:
        pw = hashlib.sha256(pw).digest()
    return pw + bytes(64 - len(pw))


def setup(h, n=16, lens=(0, 5, 64, 65, 100, 300)):
    from age.keys.password import PasswordKey
    return PasswordKey(h.bytes("pw", h.choose("len", lens))), h.bytes("fk", n)


def is_tag(h, err, label):
    from cryptography.exceptions import InvalidTag
    h.check(isinstance(err, InvalidTag), label)


def roundtrip(h, n):
    from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
    pw, fk = setup(h, n)
    cost = h.int("cost", 1, 22)
    salt, cost2, body = scrypt_encrypt_file_key(pw, fk, cost)
    h.check(h.all(len(salt) == 16, cost2 == cost, len(body) == n + 16), "round trip")
    h.check(scrypt_decrypt_file_key(pw, salt, cost2, body) == fk, "round trip")
    for s, N, r, p, password in h.scrypt_calls():
        h.check(h.all(N == 1 << cost, r == 8, p == 1), "round trip")


def text(h):
    from age.recipients.helpers import generate_recipient_from_key, get_recipient
    from age.recipients.scrypt import SCryptRecipient
    from age.algorithms.scrypt import scrypt_encrypt_file_key
    pw, fk = setup(h, 16, (0, 5))
    if h.choose("default", [0, 1]):
        r = generate_recipient_from_key(pw, fk)
    else:
        r = SCryptRecipient(*scrypt_encrypt_file_key(pw, fk, h.choose("cost", [1, 9, 10, 14, 22])))
    args, body = r.dump()
    h.check(r.TAG == "scrypt" and len(args) == 2 and isinstance(args[1], str), "text round trip")
    r2 = get_recipient(r.TAG, args, body)
    h.check(r2.log_cost == r.log_cost, "text round trip")
    h.check(r2.decrypt(pw) == fk, "text round trip")
    h.check(r.decrypt(pw) == fk, "text round trip")


def other_password(h, sizes):
    from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
    from age.keys.password import PasswordKey
    pw, fk = setup(h, 16, sizes)
    pw2 = h.bytes("pw2", h.choose("len2", sizes))
    h.assume(h.no(block(pw2) == block(pw.value)))
    salt, cost, body = scrypt_encrypt_file_key(pw, fk, h.choose("cost", [1, 18]))
    _, err = h.run(scrypt_decrypt_file_key, PasswordKey(pw2), salt, cost, body)
    is_tag(h, err, "other passphrase rejected")


def altered_salt(h, via=0):
    from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
    pw, fk = setup(h)
    salt, cost, body = scrypt_encrypt_file_key(pw, fk, 10)
    _, err = opened(h, via, "scrypt", scrypt_decrypt_file_key, pw, h.other("salt", salt), cost, body)
    is_tag(h, err, "altered salt rejected")


def altered_cost(h, via=0):
    from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
    pw, fk = setup(h)
    cost = h.int("cost", 1, 22)
    cost2 = h.int("cost2", 0, 22)
    h.assume(h.no(cost == cost2))
    salt, _, body = scrypt_encrypt_file_key(pw, fk, cost)
    _, err = opened(h, via, "scrypt", scrypt_decrypt_file_key, pw, salt, cost2, body)
    h.check(err is not None, "other work factor rejected")


def altered_body(h, via=0):
    from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
    pw, fk = setup(h)
    salt, cost, body = scrypt_encrypt_file_key(pw, fk, 10)
    _, err = opened(h, via, "scrypt", scrypt_decrypt_file_key, pw, salt, cost, h.other("body", body))
    is_tag(h, err, "altered wrapped key rejected")


def resized(h, via=0):
    from age.algorithms.scrypt import scrypt_decrypt_file_key, scrypt_encrypt_file_key
    pw, fk = setup(h, 16, (5,))
    salt, cost, body = scrypt_encrypt_file_key(pw, fk, 10)
    if h.choose("what", ["body", "salt"]) == "body":
        _, err = opened(h, via, "scrypt", scrypt_decrypt_file_key, pw, salt, cost, h.bytes("b", h.choose("n", [0, 15, 16, 31, 33])))
        is_tag(h, err, "altered wrapped key rejected")
    else:
        _, err = opened(h, via, "scrypt", scrypt_decrypt_file_key, pw, h.bytes("s", h.choose("n", [0, 15, 17])), cost, body)
        is_tag(h, err, "altered salt rejected")


def guard_wrap(h, top):
    from age.algorithms.scrypt import scrypt_encrypt_file_key
    pw, fk = setup(h, 16, (5,))
    cost = h.int("cost", -top, top)
    h.assume(h.any(cost < 0, cost > 22))
    _, err = h.run(scrypt_encrypt_file_key, pw, fk, cost)
    h.check(isinstance(err, ValueError), "cost refused on wrapping")
    h.check(len(h.scrypt_calls()) == 0, "no derivation beyond the limit")


def guard_unwrap(h, top):
    from age.algorithms.scrypt import scrypt_decrypt_file_key
    from age.recipients.scrypt import SCryptRecipient
    pw, fk = setup(h, 16, (5,))
    cost = h.int("cost", -top, top)
    h.assume(h.any(cost < 0, cost > 22))
    salt, body = h.bytes("salt", 16), h.bytes("body", 32)
    if h.choose("via", [0, 1]):
        _, err = h.run(scrypt_decrypt_file_key, pw, salt, cost, body)
    else:
        _, err = h.run(SCryptRecipient(salt, cost, body).decrypt, pw)
    h.check(isinstance(err, ValueError), "cost refused on unwrapping")
    h.check(len(h.scrypt_calls()) == 0, "no derivation beyond the limit")


def text_cost(h, n):
    """Whatever text stands for the work factor: derivation runs only with a cost within the limit."""
    from age.recipients.helpers import get_recipient
    pw, fk = setup(h, 16, (5,))
    t = h.text("t", n, lo=32, hi=126)
    r, err = h.run(get_recipient, "scrypt", ["AAAAAAAAAAAAAAAAAAAAAA", t], "A" * 43)
    if err is None:
        _, err = h.run(r.decrypt, pw)
        h.check(err is not None, "cost of the text form")
    for s, N, _, _, _ in h.scrypt_calls():
        h.check(h.all(N >= 1, N <= 1 << 22), "no derivation beyond the limit")
