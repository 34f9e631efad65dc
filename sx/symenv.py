"""Symbolic environment on top of the harness interface."""
import os
import sys
import types

from . import engine as _eng
from . import rt
from .harness import SymH
from .models import crypto, keys, iomod
from .seq import SymStr, as_seq, encode_text

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")


class FakeSys(types.ModuleType):
    """`sys` as seen by the code under check: scripted streams, everything else real."""

    def __getattr__(self, name):
        return getattr(sys, name)


class EnvH(SymH):
    def __init__(self, E, world, tier):
        super().__init__(E, world, tier)
        self.sys = FakeSys("sys")
        self.sys.stdin = self.sys.stdout = self.sys.stderr = None
        world.subst["sys"] = self.sys
        self._home = None

    def start(self):
        self.E.path_state["sys"] = self.sys
        err = iomod.MStringIO()
        err.isatty = lambda: False
        out = iomod.MStringIO()
        self.sys.stderr, self.sys.stdout, self.sys.stdin = err, out, None

    def run(self, fn, *a, **k):
        try:
            return rt.call(fn, *a, **k), None
        except (Exception, SystemExit) as e:
            self._guard(e)
            return None, e

    # randomness
    def randomness(self, mode):
        self.E.path_state["draw_mode"] = mode

    def draws(self):
        """[(n, bytes)] in the order drawn."""
        return [(n, b) for n, b, _ in crypto.state("draws", [])]

    # files
    def home(self):
        if self._home is None:
            self._home = make_home(self.tmpdir())
        return self._home

    def write_file(self, path, content):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(content, str):
            content = content.encode("utf-8") if type(content) is str else as_seq(encode_text(as_seq(content).cells, "utf-8", "strict"))
        if type(content) is bytes:
            with open(path, "wb") as f:
                f.write(content)
        else:
            with open(path, "wb") as f:
                f.write(b"(symbolic)\n")
            iomod.files()[os.path.realpath(path)] = content

    def known_paths(self, *names):
        crypto.state("known_paths", []).extend(names)

    # streams
    def set_std(self, stdin=None, stdout=None, stderr=None):
        if stdin is not None:
            self.sys.stdin = stdin
        if stdout is not None:
            self.sys.stdout = stdout
        if stderr is not None:
            self.sys.stderr = stderr

    def stderr_text(self):
        return self.sys.stderr.getvalue()

    def stdout_text(self):
        return self.sys.stdout.getvalue()

    def prompts(self, *answers):
        self.E.path_state["prompts"] = list(answers)

    def prompt_log(self):
        return crypto.state("prompt_log", [])

    def urls(self, table):
        self.E.path_state["urls"] = dict(table)

    def requests(self):
        return crypto.state("requests", [])

    def fake_mode(self, mode):
        self.E.path_state["fake_mode"] = mode

    # keys and logs
    def rsa_key(self, i):
        from cryptography.hazmat.primitives.serialization import load_pem_private_key
        with open(os.path.join(DATA, "rsa%s.pem" % i), "rb") as f:
            return keys.wrap_key(load_pem_private_key(f.read(), None))

    def rsa_pem(self, i):
        with open(os.path.join(DATA, "rsa%s.pem" % i), "rb") as f:
            return f.read()

    def rsa_generic(self, i, bits, e=65537):
        """Private key with an arbitrary modulus (native: key i of the pool)."""
        n = self.bytes_hidden("rsa%d.n" % i, (bits + 7) // 8)
        c = as_seq(n).cells
        top = 1 << (bits - 1) % 8
        self.assume(self.all(c[0] >= top, c[0] < 2 * top, (c[-1] & 1) == 1))
        for other in crypto.state("rsa_generic", []):
            if len(other) == len(n):
                self.assume(self.no(n == other))
        crypto.state("rsa_generic", []).append(n)
        return crypto.MRsaPriv("rsa%d" % i, keys.int_bytes(e), n, bits)

    def rsa_public(self, key, e=None):
        """Another public key object of the same modulus, with the same exponent or e."""
        pub = key.public_key() if hasattr(key, "public_key") else key
        if e is None or pub.e_bytes == keys.int_bytes(e):
            return crypto.MRsaPub(pub.ident, pub.e_bytes, pub.n_bytes, pub.bits)
        ident = (pub.ident[0], pub.ident[1], e) if isinstance(pub.ident, tuple) else "%s/%d" % (pub.ident, e)
        return crypto.MRsaPub(ident, keys.int_bytes(e), pub.n_bytes, pub.bits)

    def bytes_hidden(self, name, n):
        from .harness import fresh_cells
        from .seq import mkbytes
        return mkbytes(fresh_cells(self.E, name, n))

    def standin_keys(self):
        self.E.path_state["standin_keys"] = True

    def scrypt_calls(self):
        """[(salt, n, r, p, password)]"""
        return [c[:5] for c in crypto.state("scrypt_calls", [])]

    def seals(self):
        """AEAD encryptions: [(key, nonce, ad, plaintext, ciphertext)]"""
        return crypto.state("seals", [])

    def opens(self):
        return crypto.state("opens", [])

    def hkdfs(self):
        """HKDF derivations: [(salt, info, key material, length)]"""
        return crypto.state("hkdf", [])

    def tainted(self, text, secret, least=8):
        """Does the output contain the secret?  (symbolic: any bit derived from it outside the ideal functions)"""
        from . import taint
        return taint.contains(text, secret, least)


def make_home(d):
    os.makedirs(os.path.join(d, ".config", "age"))
    os.makedirs(os.path.join(d, ".ssh"))
    os.environ["HOME"] = d
    return d
