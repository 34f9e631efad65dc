"""C13: every encryption uses fresh secrets and never leaks them."""
import io
import itertools

from checks.C11 import KINDS, Keys
from checks.C12 import named
from checks.lib import Sink, case

BOUNDS = {"quick": {"recipients": "every sequence of 1..2 kinds out of the four (to the same or to different keys), one list of all four kinds; two encryptions in a row to the same recipients",
                    "plaintext": "every byte string of 10 bytes, and of 0 and 40 for selected lists",
                    "random source": "every value drawn (symbolic); a drawn value counts as used when it appears whole, at any offset of a draw",
                    "keys": "fixed curve secrets; moduli and passphrases symbolic"},
          "thorough": {"recipients": "also every sequence of 3 kinds, three encryptions in a row", "plaintext": "as quick", "random source": "as quick", "keys": "as quick"}}
OUTSIDE = ["randomness drawn inside the libraries (RSA-OAEP seeds)", "longer plaintexts"]
ASSUMPTIONS = ["two draws of the same length (16 bytes or more) differ"]
EXPECT_LABELS = ["file key drawn", "nonce drawn", "ephemeral secret drawn", "salt drawn", "separate keys", "no leak"]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2) if q else (1, 2, 3):
        for ks in itertools.product(KINDS, repeat=n):
            if sum(k == "rsa" for k in ks) < 3 and max(map(ks.count, ks)) < 3:
                out.append(case(fresh, names=named(ks), n=10, times=1 if n == 2 and q else 2))
    for k in KINDS:
        out.append(case(fresh, names=(k + "1", k + "1"), n=0, times=2))
        out.append(case(fresh, names=(k + "1",), n=40, times=1))
    out.append(case(fresh, names=named(KINDS), n=10, times=2))
    if not q:
        out += [case(fresh, names=(k + "1",), n=3, times=3) for k in KINDS]
    return out


class Pool:
    """Values the random source handed out, each to be used once."""

    def __init__(self, h):
        self.h = h
        self.used = []

    def free(self, size):
        draws = self.h.draws()
        spans = [(k, 0) for k, d in enumerate(draws) if d[0] == size]
        spans += [(k, o) for k, d in enumerate(draws) if d[0] > size for o in range(d[0] - size + 1)]
        return [(k, o) for k, o in spans if not any(k == k2 and o < o2 + s2 and o2 < o + size for k2, o2, s2 in self.used)]

    def take(self, size, matches, label):
        """One not yet used span of the draws must match; it counts as used then."""
        h = self.h
        draws = h.draws()
        spans = self.free(size)
        for k, o in spans:
            if h.sure(matches(draws[k][1][o:o + size])):
                self.used.append((k, o, size))
                h.cover(label)
                return draws[k][1][o:o + size]
        h.check(h.any(False, *[matches(draws[k][1][o:o + size]) for k, o in spans]), label)
        return None


def fresh(h, names, n, times):
    from age.file import Encryptor, HEADER_HKDF_LABEL, PAYLOAD_HKDF_LABEL
    from age.format import load_header
    from age.primitives.encode import decode
    from age.primitives.hkdf import hkdf
    from age.primitives.hmac import HMAC
    from age.primitives.x25519 import x25519_scalarmult_base
    from age.recipients.helpers import decrypt_file_key, get_recipient
    from age.stream import stream_encrypt
    keys = Keys(h, True)
    recipients = [keys.public(x) for x in names]
    pool = Pool(h)
    for t in range(times):
        data = h.bytes("data%d" % t, n)
        out = Sink()
        enc, err = h.run(Encryptor, recipients, out)
        h.check(err is None, "file key drawn")
        enc.write(data)
        _, err = h.run(enc.close)
        h.check(err is None, "file key drawn")
        ct = out.content()
        stream = io.BytesIO(ct)
        header, mac = load_header(stream)
        stanza = [get_recipient(r.type, r.arguments, r.body) for r in header.recipients]
        h.check(len(stanza) == len(names), "file key drawn")
        fk, err = h.run(decrypt_file_key, stanza[:1], [keys[names[0]]])
        h.check(err is None and len(fk) == 16, "file key drawn")
        pool.take(16, lambda d: d == fk, "file key drawn")
        secret = [data, fk]
        for r, s in zip(header.recipients, stanza):
            if r.type == "scrypt":
                salt = decode(r.arguments[0])
                h.check(len(salt) == 16, "salt drawn")
                pool.take(16, lambda d: d == salt, "salt drawn")
            elif r.type != "ssh-rsa":
                share = decode(r.arguments[-1])
                got = pool.take(32, lambda d: x25519_scalarmult_base(d) == share, "ephemeral secret drawn")
                if got is not None:
                    secret.append(got)
        nonce = stream.read(16)
        h.check(len(nonce) == 16, "nonce drawn")
        pool.take(16, lambda d: d == nonce, "nonce drawn")
        mac_key = hkdf(b"", HEADER_HKDF_LABEL, fk, 32)
        payload_key = hkdf(nonce, PAYLOAD_HKDF_LABEL, fk, 32)
        h.check(mac_key != payload_key, "separate keys")
        h.check(HMAC(mac_key).generate(ct[:len(ct) - len(stream.read()) - 61]) == mac, "separate keys")
        h.check(ct[-(n + 16):] == stream_encrypt(payload_key, data), "separate keys")
        for s in secret + [mac_key, payload_key]:
            if len(s) >= 8:
                h.check(h.no(h.tainted(ct, s)), "no leak")
        h.check(h.no(h.any(h.tainted(h.stderr_text(), fk), h.tainted(h.stdout_text(), fk))), "no leak")
