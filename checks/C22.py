"""C22: an encrypted OpenSSH key opens only with its passphrase."""
from checks.C21 import armor, matches, numbers, private_section, string, type_name, u32
from checks.lib import case

BOUNDS = {"quick": {"passphrase": "every byte string of 1, 2, 12, 73, 130 and 300 bytes, tried against every other of 0..3, 12 and 13 (long ones: 72, 129, 130 and 256) bytes, None included", "salt": "every value of 1, 8, 16 and 20 bytes", "rounds": "every value of 1..2^32-1",
                    "ciphers": "aes128-ctr, aes192-ctr, aes256-ctr; every other name of 0..10 bytes", "KDF": "bcrypt; every other name of 0..8 bytes; names of 7, 8 and 11 bytes that begin or end with bcrypt",
                    "keys": "Ed25519 (symbolic), RSA, DSA and ECDSA keys of symbolic numbers of 2 bytes; comments giving every padding length 0..16"},
          "thorough": {"passphrase": "also 40 bytes", "rest": "as quick"}}
OUTSIDE = ["a wrong passphrase whose keystream happens to make the check words equal (probability 2^-32)", "bcrypt and AES themselves", "malformed private sections (C21)",
           "what other loaders (the PEM loader of the library) accept"]
ASSUMPTIONS = ["bcrypt-pbkdf is an uninterpreted function; different keys or IVs give independent AES key streams", "under a wrong key the two check words differ in each byte (that the comparison is of all bits is a case of its own)"]
EXPECT_LABELS = ["opens with its passphrase", "no passphrase", "wrong passphrase", "other KDF refused", "other cipher refused", "derived from passphrase, salt and rounds"]
CIPHERS = {"aes128-ctr": 16, "aes192-ctr": 24, "aes256-ctr": 32}


def cases(tier):
    q = tier == "quick"
    out = []
    out = [case(check_words, cipher=cipher) for cipher in CIPHERS]
    for cipher in CIPHERS:
        for n in (1, 2, 12) if q else (1, 2, 12, 40):
            for salt in (1, 8, 16, 20):
                out.append(case(opens, cipher=cipher, n=n, salt=salt, t="ed"))
        for t in ("rsa", "dsa", "nistp256"):
            out.append(case(opens, cipher=cipher, n=3, salt=16, t=t))
        for n in (1, 2, 12):
            for m in (0, 1, 2, 3, 12, 13):
                out.append(case(wrong, cipher=cipher, n=n, m=m))
        for n in (73, 130, 300):
            out.append(case(opens, cipher=cipher, n=n, salt=16, t="ed"))
        for n, m in ((130, 130), (73, 72), (130, 129), (300, 256)):
            out.append(case(wrong, cipher=cipher, n=n, m=m))
        out += [case(parameters, cipher=cipher, change=c) for c in ("salt", "rounds", "cipher")]
        out.append(case(paddings, cipher=cipher))
    for n in range(0, 11):
        out.append(case(ciphers, n=n))
    for n in range(0, 9):
        out.append(case(kdfs, n=n))
    for n in (7, 8, 11):
        for where in ("before", "after"):
            out.append(case(near_kdf, n=n, where=where))
    out += [case(no_kdf, sealed=s) for s in (0, 1)]
    return out


def passphrase(h, name, n):
    return h.bytes(name, n)


def seal(h, section, cipher, pw, salt, rounds):
    """The private section under the bcrypt-derived key and IV, as OpenSSH writes it."""
    import bcrypt
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    n = CIPHERS[cipher]
    out = bcrypt.kdf(pw, salt, n + 16, rounds, ignore_few_rounds=True)
    enc = Cipher(algorithms.AES(out[:n]), modes.CTR(out[n:])).encryptor()
    return enc.update(section) + enc.finalize()


def container(section, cipher=b"aes256-ctr", kdf=b"bcrypt", salt=b"", rounds=16):
    return (b"openssh-key-v1\0" + string(cipher) + string(kdf) + string(string(salt) + rounds.to_bytes(4, "big"))
            + b"\0\0\0\1" + string(b"pub") + string(section))


def make(h, t="ed", comment=3, pad=None):
    h.standin_keys()
    fields = numbers(h, t, 2)
    out = private_section(t, fields, h.bytes("comment", comment), h.bytes("check", 4), b"")
    n = -len(out) % 16 if pad is None else pad
    want = ("ed", fields[1][:32]) if t == "ed" else (
        t, [int.from_bytes(f, "big") for f in fields] if t in ("rsa", "dsa") else [fields[1], int.from_bytes(fields[2], "big")])
    return out + bytes(range(1, n + 1)), want


def load(h, data, pw):
    from age.openssh_keys import load_openssh_private_key
    return h.run(load_openssh_private_key, armor(data), pw)


def good(h, data, pw, want, label):
    key, err = load(h, data, pw)
    h.check(err is None, label)
    h.check(matches(h, key, want), label)


def rounds_(h):
    return h.int("rounds", 1, 2 ** 32 - 1)


def opens(h, cipher, n, salt, t):
    section, want = make(h, t)
    pw, salt, rounds = passphrase(h, "passphrase", n), h.bytes("salt", salt), rounds_(h)
    sealed = seal(h, section, cipher, pw, salt, rounds)
    good(h, container(sealed, cipher.encode("ascii"), b"bcrypt", salt, rounds), pw, want, "opens with its passphrase")


def paddings(h, cipher):
    n = h.choose("comment", range(17))
    section, want = make(h, "ed", n)
    salt = h.bytes("salt", 16)
    sealed = seal(h, section, cipher, b"pass", salt, 16)
    good(h, container(sealed, cipher.encode("ascii"), b"bcrypt", salt, 16), b"pass", want, "opens with its passphrase")


def differ(h, data, sealed, section, cipher, pw, salt, rounds):
    """Assume that a derived key other than the right one does not make the check words equal."""
    clear = seal(h, sealed, cipher, pw, salt, rounds)
    h.assume(h.all(*[h.no(clear[i] == clear[i + 4]) for i in range(4)]))


def check_words(h, cipher):
    """Check words that differ at all are the mark of a wrong passphrase."""
    section, _ = make(h)
    first, second, salt = h.bytes("first", 4), h.bytes("second", 4), h.bytes("salt", 16)
    h.assume(h.no(first == second))
    sealed = seal(h, first + second + section[8:], cipher, b"pass", salt, 16)
    _, err = load(h, container(sealed, cipher.encode("ascii"), b"bcrypt", salt, 16), b"pass")
    h.check(err is not None, "wrong passphrase")


def wrong(h, cipher, n, m):
    section, want = make(h)
    pw, salt, rounds = passphrase(h, "passphrase", n), h.bytes("salt", 16), 16
    sealed = seal(h, section, cipher, pw, salt, rounds)
    data = container(sealed, cipher.encode("ascii"), b"bcrypt", salt, rounds)
    if m == 0:
        _, err = load(h, data, h.choose("none", [None, b""]))
        h.check(err is not None, "no passphrase")
        return
    other = passphrase(h, "other", m)
    if m == n:
        h.assume(h.no(other == pw))
    differ(h, data, sealed, section, cipher, other, salt, rounds)
    _, err = load(h, data, other)
    h.check(err is not None, "wrong passphrase")


def parameters(h, cipher, change):
    """The section was sealed with one salt, round count or cipher, and the file names another."""
    section, want = make(h)
    pw, salt, rounds, used = b"pass phrase", h.bytes("salt", 8), 16, cipher
    sealed = seal(h, section, cipher, pw, salt, rounds)
    if change == "salt":
        salt = h.other("other salt", salt)
    elif change == "rounds":
        rounds = h.int("other rounds", 1, 2 ** 32 - 1)
        h.assume(rounds != 16)
    else:
        used = h.choose("cipher", [c for c in CIPHERS if c != cipher])
    differ(h, None, sealed, section, used, pw, salt, rounds)
    _, err = load(h, container(sealed, used.encode("ascii"), b"bcrypt", salt, rounds), pw)
    h.check(err is not None, "derived from passphrase, salt and rounds")


def ciphers(h, n):
    section, want = make(h)
    name = h.bytes("cipher", n)
    for c in list(CIPHERS) + ["none"]:
        if len(c) == n:
            h.assume(h.no(name == c.encode("ascii")))
    salt = h.bytes("salt", 16)
    sealed = section if h.choose("sealed", [False, True]) else seal(h, section, "aes256-ctr", b"pass", salt, 16)
    _, err = load(h, container(sealed, name, b"bcrypt", salt, 16), h.choose("passphrase", [b"pass", None]))
    h.check(err is not None, "other cipher refused")


def kdfs(h, n):
    section, want = make(h)
    name = h.bytes("kdf", n)
    if n == 6:
        h.assume(h.no(name == b"bcrypt"))
    cipher = h.choose("cipher", list(CIPHERS))
    salt = h.bytes("salt", 16)
    sealed = section if h.choose("sealed", [False, True]) else seal(h, section, cipher, b"pass", salt, 16)
    _, err = load(h, container(sealed, cipher.encode("ascii"), name, salt, 16), h.choose("passphrase", [b"pass", None]))
    h.check(err is not None, "other KDF refused")


def near_kdf(h, n, where):
    """A name that has bcrypt at its start or end, and more."""
    section, want = make(h)
    more = h.bytes("more", n - 6)
    name = b"bcrypt" + more if where == "after" else more + b"bcrypt"
    salt = h.bytes("salt", 16)
    sealed = seal(h, section, "aes256-ctr", b"pass", salt, 16)
    _, err = load(h, container(sealed, b"aes256-ctr", name, salt, 16), h.choose("passphrase", [b"pass", None]))
    h.check(err is not None, "other KDF refused")


def no_kdf(h, sealed):
    """An encrypted key whose KDF is "none"; the section is in the clear or sealed."""
    section, want = make(h)
    salt = h.bytes("salt", 16)
    cipher = h.choose("cipher", list(CIPHERS)).encode("ascii")
    sealed = seal(h, section, "aes256-ctr", b"pass", salt, 16) if sealed else section
    _, err = load(h, container(sealed, cipher, b"none", salt, 16), h.choose("passphrase", [b"pass", None]))
    h.check(err is not None, "other KDF refused")
