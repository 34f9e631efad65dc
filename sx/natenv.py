"""Native environment: scratch home, scripted randomness, streams, prompts and HTTP.

The hooks are installed once, before the code under check is imported, and act on the current harness.
"""
import io
import os
import sys

from sx import standin
from sx.native import NativeH, det_bytes

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
CUR = [None]


def install():
    import hashlib
    import secrets
    import click
    import requests
    import bcrypt
    from cryptography.hazmat.primitives import serialization as ser
    from cryptography.hazmat.primitives.asymmetric import ed25519, x25519, rsa, dsa, ec
    from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
    from cryptography.hazmat.primitives.kdf.scrypt import Scrypt
    from cryptography.hazmat.primitives.kdf.hkdf import HKDF
    from cryptography.hazmat.backends.openssl import rsa as ossl_rsa
    real_urandom = os.urandom

    def draw(n):
        h = CUR[0]
        return real_urandom(n) if h is None else h._draw(n)
    os.urandom = draw
    secrets.token_bytes = lambda n=None: draw(32 if n is None else n)
    if hasattr(os, "getrandom"):
        os.getrandom = lambda n, flags=0: draw(n)
    x25519.X25519PrivateKey.generate = classmethod(lambda cls: cls.from_private_bytes(draw(32)))
    ed25519.Ed25519PrivateKey.generate = classmethod(lambda cls: cls.from_private_bytes(draw(32)))

    def prompt(text, default=None, hide_input=False, **k):
        h = CUR[0]
        h._prompt_log.append((text, hide_input))
        if not h._prompts:
            raise click.Abort()
        return h._prompts.pop(0)
    click.prompt = prompt

    def get(url, params=None, **k):
        h = CUR[0]
        h._requests.append(url)
        if url not in h._urls:
            raise requests.ConnectionError("no such host")
        return standin.Response(url, *h._urls[url])
    requests.get = get
    requests.api.get = get
    stat_, fstat_ = os.stat, os.fstat

    def fake(fd):
        return type(fd) is int and fd == standin.FAKE_FD
    os.stat = lambda p, *a, **k: standin.FakeStat(CUR[0]._mode) if fake(p) else stat_(p, *a, **k)
    os.fstat = lambda p: standin.FakeStat(CUR[0]._mode) if fake(p) else fstat_(p)

    def log_scrypt(salt, n, r, p, pw, length):
        CUR[0]._scrypt.append((bytes(salt), n, r, p, bytes(pw)))
        return standin.scrypt(bytes(pw), bytes(salt), n, r, p, length)
    Scrypt_init = Scrypt.__init__

    def s_init(self, salt, length, n, r, p, backend=None):
        self._sx = (salt, n, r, p, length)
        Scrypt_init(self, salt, length, n, r, p, backend)

    def s_derive(self, key_material):
        salt, n, r, p, length = self._sx
        return log_scrypt(salt, n, r, p, key_material, length)
    Scrypt.__init__ = s_init
    Scrypt.derive = s_derive
    real_hs = hashlib.scrypt
    standin_hs = standin.hashlib

    def h_scrypt(password, *, salt, n, r, p, maxmem=0, dklen=64):
        return log_scrypt(salt, n, r, p, password, dklen)

    class HashlibProxy:
        scrypt = staticmethod(real_hs)

        def __getattr__(self, name):
            return getattr(standin_hs, name)
    standin.hashlib = HashlibProxy()
    hashlib.scrypt = h_scrypt

    real_bcrypt = bcrypt.kdf

    def b_kdf(password, salt, desired_key_bytes, rounds, ignore_few_rounds=False):
        if type(rounds) is int and rounds > 64 and salt:
            salt, rounds = bytes(salt) + b"|rounds=%d" % rounds, 16
        return real_bcrypt(password, salt, desired_key_bytes, rounds, ignore_few_rounds=True)
    bcrypt.kdf = b_kdf

    enc = ossl_rsa._RSAPublicKey.encrypt

    def rsa_encrypt(self, plaintext, padding):
        n = self.public_numbers()
        if type(padding).__name__ != "OAEP" or CUR[0] is None:
            return enc(self, plaintext, padding)
        return standin.oaep_encrypt(n.n, n.e, bytes(plaintext), padding._label or b"", padding._algorithm.name,
                                    padding._mgf._algorithm.name)
    ossl_rsa._RSAPublicKey.encrypt = rsa_encrypt
    # key numbers
    rsa_pk, dsa_pk, ec_pk = (rsa.RSAPrivateNumbers.private_key, dsa.DSAPrivateNumbers.private_key,
                             ec.EllipticCurvePrivateNumbers.private_key)
    point = ec.EllipticCurvePublicKey.from_encoded_point.__func__

    def on():
        return CUR[0] is not None and CUR[0]._standins

    def r_key(self, *a, **k):
        if not on():
            return rsa_pk(self, *a, **k)
        return standin.RsaNumbersKey("rsa", {"p": self.p, "q": self.q, "d": self.d, "dmp1": self.dmp1,
                                             "dmq1": self.dmq1, "iqmp": self.iqmp, "e": self.public_numbers.e,
                                             "n": self.public_numbers.n})

    def d_key(self, *a, **k):
        if not on():
            return dsa_pk(self, *a, **k)
        pn = self.public_numbers
        pa = pn.parameter_numbers
        return standin.DsaNumbersKey("dsa", {"x": self.x, "y": pn.y, "p": pa.p, "q": pa.q, "g": pa.g})
    rsa.RSAPrivateNumbers.private_key = r_key
    dsa.DSAPrivateNumbers.private_key = d_key

    real_ecn = ec.EllipticCurvePrivateNumbers

    class EcPrivateNumbers(real_ecn):
        def __init__(self, private_value, public_numbers):
            if not on():
                super().__init__(private_value, public_numbers)
            self._sx = (private_value, public_numbers)

        def private_key(self, *a, **k):
            if not on():
                return real_ecn(*self._sx).private_key()
            x, pub = self._sx
            return standin.EcNumbersKey("ec", {"x": x, "curve": pub.curve.name, "point": pub.data})
    ec.EllipticCurvePrivateNumbers = EcPrivateNumbers
    ec.EllipticCurvePublicKey.from_encoded_point = classmethod(
        lambda cls, curve, data: standin.EcPoint(curve, data) if on() else point(cls, curve, data))
    rsa.RSAPrivateKey.register(standin.RsaNumbersKey)
    dsa.DSAPrivateKey.register(standin.DsaNumbersKey)
    ec.EllipticCurvePrivateKey.register(standin.EcNumbersKey)


install()


class Capture(io.StringIO):
    def close(self):
        pass


class EnvH(NativeH):
    def __init__(self, values, tier):
        super().__init__(values, tier)
        self._mode_draw = "symbolic"
        self._draw_log = []
        self._prompts, self._prompt_log = [], []
        self._urls, self._requests = {}, []
        self._mode = 0
        self._scrypt = []
        self._standins = False
        self._home = None

    def start(self):
        CUR[0] = self
        self._std = sys.stdin, sys.stdout, sys.stderr
        sys.stdout, sys.stderr = Capture(), Capture()

    def cleanup(self):
        if CUR[0] is self:
            sys.stdin, sys.stdout, sys.stderr = self._std
        CUR[0] = None
        super().cleanup()

    def _draw(self, n):
        k = len(self._draw_log)
        v = self.values.get("urandom!%d" % k)
        if n < 0:
            raise ValueError("negative argument not allowed")
        if self._mode_draw != "symbolic":
            v = det_bytes("%s/%d" % (self._mode_draw, k), n)
        else:
            v = bytes.fromhex(v) if v is not None else b""
            if len(v) != n:
                v = det_bytes("draw/%d" % k, n)
        self._draw_log.append((n, v))
        return v

    def run(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except (Exception, SystemExit) as e:
            return None, e

    def randomness(self, mode):
        self._mode_draw = mode

    def draws(self):
        return list(self._draw_log)

    def home(self):
        if self._home is None:
            d = self.tmpdir()
            os.makedirs(os.path.join(d, ".config", "age"))
            os.makedirs(os.path.join(d, ".ssh"))
            os.environ["HOME"] = d
            self._home = d
        return self._home

    def write_file(self, path, content):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(content, str):
            content = content.encode("utf-8")
        with open(path, "wb") as f:
            f.write(content)

    def known_paths(self, *names):
        pass

    def set_std(self, stdin=None, stdout=None, stderr=None):
        if stdin is not None:
            sys.stdin = stdin
        if stdout is not None:
            sys.stdout = stdout
        if stderr is not None:
            sys.stderr = stderr

    def stderr_text(self):
        return sys.stderr.getvalue()

    def stdout_text(self):
        return sys.stdout.getvalue()

    def prompts(self, *answers):
        self._prompts = list(answers)

    def prompt_log(self):
        return self._prompt_log

    def urls(self, table):
        self._urls = dict(table)

    def requests(self):
        return self._requests

    def fake_mode(self, mode):
        self._mode = mode

    def rsa_key(self, i):
        from cryptography.hazmat.primitives.serialization import load_pem_private_key
        with open(os.path.join(DATA, "rsa%s.pem" % i), "rb") as f:
            return load_pem_private_key(f.read(), None)

    def rsa_pem(self, i):
        with open(os.path.join(DATA, "rsa%s.pem" % i), "rb") as f:
            return f.read()

    def rsa_generic(self, i, bits, e=65537):
        if (bits, e) in ((1024, 65537), (2048, 65537)):
            k = self.rsa_key((i + self.values.get("_rotate", 0)) % 6 if bits == 1024 else 6)
        else:
            k = self.rsa_key("-%d-%d" % (bits, e))
        assert k.key_size == bits
        return k

    def rsa_public(self, key, e=None):
        from cryptography.hazmat.primitives.asymmetric import rsa
        pub = key.public_key() if hasattr(key, "public_key") else key
        v = pub.public_numbers()
        return rsa.RSAPublicNumbers(v.e if e is None else e, v.n).public_key()

    def standin_keys(self):
        self._standins = True

    def scrypt_calls(self):
        return list(self._scrypt)

    def tainted(self, text, secret, least=8):
        if isinstance(text, str):
            text = text.encode("utf-8")
        secret = secret.encode("utf-8") if isinstance(secret, str) else bytes(secret)
        from . import leak
        found = leak.occurs(text, secret, least)
        self.leak_seen |= found
        return found
