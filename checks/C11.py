"""C11: one matching identity always suffices, none is rejected."""
import itertools

from checks.lib import case

KINDS = ("age", "pass", "rsa", "ed")
BOUNDS = {"quick": {"stanzas": "every sequence of 0..2 stanzas, each to one of two keys of each of the four kinds or of an unknown type; selected sequences of 3",
                    "identities": "every set of 0..2 of those eight identities, in every order of examination; all eight together; 20 stanzas of one kind with one identity, one stanza with 20 identities (19 of another kind), in three orders",
                    "keys": "file key, random draws, moduli and passphrases symbolic; secrets of curve keys symbolic for a single stanza, else fixed examples"},
          "thorough": {"stanzas": "also every sequence of 3 stanzas of pairwise different kinds", "identities": "every set of 0..3", "keys": "secrets of curve keys symbolic in the lists of stanzas up to 2"}}
OUTSIDE = ["malformed stanzas of a known type", "longer lists"]
EXPECT_LABELS = ["file key recovered", "no identity", "file opened", "no identity for the file"]
NAMES = tuple(k + i for k in KINDS for i in "12")


def curve(names):
    return sum(n[:-1] in ("age", "ed") for n in names)


def cases(tier):
    q = tier == "quick"
    out = []
    for s in itertools.chain([()], [(a,) for a in NAMES], itertools.product(NAMES, repeat=2)):
        if s and not s[0].endswith("1") or len(s) == 2 and s[0][:-1] != s[1][:-1] and s[1].endswith("2"):
            continue      # the two keys of a kind are interchangeable
        # secret curve keys stay symbolic in single stanzas (thorough: everywhere)
        out.append(case(helper, stanzas=s, most=2 if q else 3, fixed=int(q and curve(s) > (len(s) < 2))))
    for a, b in itertools.permutations(KINDS, 2):
        out.append(case(whole, stanzas=("unknown", a + "1"), identities=(b + "1", a + "1"), fixed=1))
        out.append(case(whole, stanzas=(b + "1", "unknown", a + "1"), identities=(b + "2", a + "1"), fixed=1))
    for a in KINDS:
        out.append(case(whole, stanzas=(a + "2", a + "1", "unknown"), identities=(a + "1",), fixed=1))
        out.append(case(whole, stanzas=("unknown", a + "2"), identities=(a + "1",), fixed=1))
    out.append(case(whole, stanzas=("unknown", "unknown"), identities=NAMES))
    for s in (("rsa1", "ed1", "age1"), ("age1", "rsa1", "ed1"), ("ed1", "pass1", "rsa1")) if q else itertools.permutations([k + "1" for k in KINDS], 3):
        out.append(case(helper, stanzas=s, most=1, fixed=1))
    out += [case(crowd, kind=k, count=20 if q else 40) for k in ("age", "ed")]
    return out


class Keys:
    def __init__(self, h, fixed=False):
        self.h = h
        self.fixed = fixed
        self.made = {}

    def __getitem__(self, name):
        if name not in self.made:
            self.made[name] = self.make(name[:-1], name)
            for other in self.made:
                if other != name and other[:-1] == name[:-1]:
                    self.differ(name[:-1], self.made[name], self.made[other])
        return self.made[name]

    def make(self, kind, name):
        h = self.h
        if kind == "age":
            from age.keys.agekey import AgePrivateKey
            return AgePrivateKey.from_private_bytes(self.secret(name))
        if kind == "pass":
            from age.keys.password import PasswordKey
            return PasswordKey(h.bytes(name, 8))
        if kind == "rsa":
            from age.keys.rsa import RSAPrivateKey
            return RSAPrivateKey(h.rsa_generic(int(name[-1]), 1024))
        from age.keys.ed25519 import Ed25519PrivateKey
        from cryptography.hazmat.primitives.asymmetric import ed25519
        return Ed25519PrivateKey(ed25519.Ed25519PrivateKey.from_private_bytes(self.secret(name)))

    def secret(self, name):
        if self.fixed:
            return bytes((len(name) * 31 + int(name[-1]) * 77 + 7 * i) % 256 for i in range(32))
        return self.h.bytes(name, 32)

    def differ(self, kind, a, b):
        h = self.h
        if kind == "pass":
            h.assume(h.no(a.value == b.value))
            # trailing NUL bytes of a passphrase make no difference
            h.assume(h.all(a.value[-1] != 0, b.value[-1] != 0))
        elif kind == "age":
            h.assume(h.no(a.public_key().public_bytes() == b.public_key().public_bytes()))
        elif kind == "ed":
            h.assume(h.no(a.public_key().binary_encoding() == b.public_key().binary_encoding()))

    def public(self, name):
        k = self[name]
        return k if name.startswith("pass") else k.public_key()


def helper(h, stanzas, most, fixed=0):
    from age.exceptions import NoIdentity
    from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
    keys = Keys(h, fixed)
    fk = h.bytes("fk", 16)
    sets = [c for n in range(0, most + 1) for c in itertools.combinations(NAMES, n)] + [NAMES, NAMES[::-1]]
    # identities of kinds no stanza has behave alike: keep one of them
    kinds = {s[:-1] for s in stanzas}
    strange = [k for k in KINDS if k not in kinds]
    sets = [c for c in sets if len(c) > most or all(n[:-1] in kinds or n == strange[0] + "1" for n in c)]
    names = h.choose("identities", sets)
    recipients = []
    for s in stanzas:
        r = generate_recipient_from_key(keys.public(s), fk)
        args, body = r.dump()
        recipients.append(get_recipient(r.TAG, args, body))
    got, err = h.run(decrypt_file_key, recipients, [keys[n] for n in names])
    if set(names) & set(stanzas):
        h.check(err is None, "file key recovered")
        h.check(got == fk, "file key recovered")
    else:
        h.check(isinstance(err, NoIdentity), "no identity")


def crowd(h, kind, count):
    """Many stanzas and many identities, one pair of which matches."""
    from checks.C12 import plain_key
    from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
    h.randomness("fixed")
    fk = h.bytes("fk", 16)
    many = h.choose("many", ["identities", "stanzas"])
    recipients, identities = [], [plain_key(kind, 0)]
    at = h.choose("at", [0, count // 2, count - 1])
    if many == "stanzas":
        others = [plain_key(kind, 1 + i).public_key() for i in range(count - 1)]
        publics = others[:at] + [identities[0].public_key()] + others[at:]
    else:
        publics = [identities[0].public_key()]
        others = [plain_key("ed" if kind == "age" else "age", 1 + i) for i in range(count - 1)]
        identities = others[:at] + identities + others[at:]
    for public in publics:
        r = generate_recipient_from_key(public, fk)
        args, body = r.dump()
        recipients.append(get_recipient(r.TAG, args, body))
    got, err = h.run(decrypt_file_key, recipients, identities)
    h.check(err is None, "file key recovered")
    h.check(got == fk, "file key recovered")


def whole(h, stanzas, identities, fixed=0):
    """The same through a file with stanzas of unknown type among the others."""
    import io
    from age.exceptions import NoIdentity
    from age.file import Decryptor, HEADER_HKDF_LABEL, PAYLOAD_HKDF_LABEL
    from age.format import Header, Recipient, dump_header
    from age.primitives.hkdf import hkdf
    from age.primitives.hmac import HMAC
    from age.recipients.helpers import generate_recipient_from_key
    from age.stream import stream_encrypt
    keys = Keys(h, fixed)
    fk = h.bytes("fk", 16)
    header = Header()
    for i, s in enumerate(stanzas):
        if s == "unknown":
            word = h.text("type%d" % i, 4, chars="abXYZ059-")
            header.recipients.append(Recipient(word, [h.text("arg%d" % i, 2, chars="ab+/=")], "QUJD"))
        else:
            r = generate_recipient_from_key(keys.public(s), fk)
            args, body = r.dump()
            header.recipients.append(Recipient(r.TAG, args, body))
    out = io.BytesIO()
    dump_header(header, out, mac=None)
    mac = HMAC(hkdf(b"", HEADER_HKDF_LABEL, fk, 32)).generate(out.getvalue())
    out = io.BytesIO()
    dump_header(header, out, mac=mac)
    nonce = h.bytes("nonce", 16)
    data = h.bytes("data", 5)
    out.write(b"\n" + nonce + stream_encrypt(hkdf(nonce, PAYLOAD_HKDF_LABEL, fk, 32), data))
    dec, err = h.run(Decryptor, [keys[n] for n in identities], io.BytesIO(out.getvalue()))
    if set(identities) & set(stanzas):
        h.check(err is None, "file opened")
        h.check(dec.read() == data, "file opened")
    else:
        h.check(isinstance(err, NoIdentity), "no identity for the file")
