"""Deterministic stand-ins used alike by the symbolic models and by the native replays.

They replace operations that are slow (scrypt at full cost), randomised inside the library (RSA-OAEP
padding) or that refuse arbitrary numbers (building keys), so that a replay computes what the model computed.
"""
import hashlib
import random

FAKE_FD = 990017


def det_bytes(seed, n):
    return random.Random(seed).randbytes(n)


def scrypt(password, salt, n, r, p, dklen):
    if n <= 1024:
        return hashlib.scrypt(password, salt=salt, n=n, r=r, p=p, dklen=dklen)
    return hashlib.scrypt(password, salt=salt + b"|n=%d" % n, n=1024, r=r, p=p, dklen=dklen)


def mgf1(seed, n, alg):
    out = b""
    i = 0
    while len(out) < n:
        out += hashlib.new(alg, seed + i.to_bytes(4, "big")).digest()
        i += 1
    return out[:n]


def oaep_encrypt(n, e, pt, label, alg, mgf_alg):
    """RSAES-OAEP with a seed derived from the arguments."""
    k = (n.bit_length() + 7) // 8
    hlen = hashlib.new(alg).digest_size
    if len(pt) > k - 2 * hlen - 2:
        raise ValueError("Encryption failed")
    lhash = hashlib.new(alg, label).digest()
    db = lhash + bytes(k - len(pt) - 2 * hlen - 2) + b"\x01" + pt
    seed = hashlib.new(alg, b"seed" + n.to_bytes(k, "big") + label + b"\0" + pt).digest()
    mdb = bytes(a ^ b for a, b in zip(db, mgf1(seed, len(db), mgf_alg)))
    mseed = bytes(a ^ b for a, b in zip(seed, mgf1(mdb, hlen, mgf_alg)))
    m = int.from_bytes(b"\0" + mseed + mdb, "big")
    return pow(m, e, n).to_bytes(k, "big")


class NumbersKey:
    """A private key built from arbitrary numbers."""

    def __init__(self, kind, numbers):
        self.kind = kind
        self.numbers = numbers


class RsaNumbersKey(NumbersKey):
    pass


class DsaNumbersKey(NumbersKey):
    pass


class EcNumbersKey(NumbersKey):
    pass


class EcPoint:
    def __init__(self, curve, data):
        self.curve = curve
        self.data = data

    def public_numbers(self):
        return self


class Response:
    """What requests.get returns."""

    def __init__(self, url, status, text):
        self.url = url
        self.status_code = status
        self.text = text
        self.ok = status < 400
        self.encoding = "utf-8"
        self.headers = {}

    @property
    def content(self):
        return self.text.encode("utf-8")

    def raise_for_status(self):
        if self.status_code >= 400:
            import requests
            raise requests.HTTPError("%d Error for url" % self.status_code)


class FakeStat:
    def __init__(self, mode):
        self.st_mode = mode
        self.st_uid = self.st_gid = self.st_ino = self.st_dev = self.st_size = 0
        self.st_nlink = 1

    def __getitem__(self, i):
        return (self.st_mode, 0, 0, 1, 0, 0, 0, 0, 0, 0)[i]

    def __len__(self):
        return 10

    def __iter__(self):
        return iter((self.st_mode, 0, 0, 1, 0, 0, 0, 0, 0, 0))
