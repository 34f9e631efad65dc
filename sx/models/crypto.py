"""Ideal models of the cryptographic libraries.

Functions are uninterpreted and collision free: two applications give the same output exactly when their
arguments are equal (axioms are added for every pair of applications on a path).  Applications to concrete
arguments are computed by the real library.  HMAC and HKDF are expanded to their RFC definitions over the
uninterpreted SHA-256.  The AEAD is ideal: decryption succeeds exactly on (key, nonce, ciphertext)
triples that were sealed before.  X25519 is the commutative action of clamped scalars on points.
"""
import hashlib
import hmac as py_hmac
import os
import secrets

import z3
from cryptography.exceptions import AlreadyFinalized, InvalidKey, InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import constant_time, hashes
from cryptography.hazmat.primitives.asymmetric import ed25519 as c_ed, rsa as c_rsa, x25519 as c_x
from cryptography.hazmat.primitives.ciphers import Cipher
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305
from cryptography.hazmat.primitives.hmac import HMAC as CHMAC
from cryptography.hazmat.primitives.kdf.hkdf import HKDF, HKDFExpand
from cryptography.hazmat.primitives.kdf.scrypt import Scrypt
from cryptography.hazmat.primitives import serialization as ser
import bcrypt
import nacl.bindings as nb
import nacl.exceptions as nexc

from .. import engine as _eng
from .. import rt
from .. import standin
from .. import values as V
from ..rope import Blob, Rope
from ..rt import Model, override, override_method
from ..seq import SymBytes, SymStr, SymByteArray, as_seq, cells_eq, mkbytes, idx
from ..values import SymInt, SymBool, b_and, b_not, b_or, fork


def E():
    return _eng.ENGINE


def state(name, default):
    return E().path_state.setdefault(name, default)


def norm(x):
    """bytes-like -> bytes | SymBytes | Rope"""
    t = type(x)
    if t is Rope or t is SymBytes:
        return x
    if t is SymByteArray:
        x = x.value()
        return x
    if isinstance(x, memoryview):
        return bytes(x)
    return bytes(x)


def is_conc(x):
    t = type(x)
    return t is bytes or t is int or t is str or x is None


def need_bytes(name, x):
    if not isinstance(x, (bytes, bytearray, memoryview)):
        raise TypeError("%s must be bytes" % name)


def blen(x):
    return x.length() if type(x) is Rope else len(x)


def fresh_bytes(name, n):
    if n == 0:
        return b""
    e = E()
    leaf = e.fresh_bv(name, 8 * n)
    if name.startswith("urandom!"):
        e.input_leaves.append([leaf])
    bits = e.leaf_bits(leaf)
    return mkbytes([V.mkbits(bits[8 * (n - 1 - i):8 * (n - i)]) for i in range(n)])


def eq(a, b):
    """Equality of two argument values: bool | SymBool (ropes may split cases)."""
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, tuple):
        if len(a) != len(b):
            return False
        return b_and(*[eq(x, y) for x, y in zip(a, b)])
    if V.is_intlike(a) or V.is_intlike(b):
        if not (V.is_intlike(a) and V.is_intlike(b)):
            return False
        r = V.norm_int(a) == V.norm_int(b)
        return r
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if type(a) is Rope or type(b) is Rope:
        return Rope.of(a) == b
    return deep_eq(as_seq(a).cells, as_seq(b).cells)


class Atom:
    """A whole result of an ideal function; `related(other)` is the condition for it to equal another one."""
    __slots__ = ("kind", "cells", "args", "memo")

    def __init__(self, kind, cells, args):
        self.kind = kind
        self.cells = cells
        self.args = args
        self.memo = {}

    def related(self, other):
        """bool | SymBool, or None if the axioms say nothing."""
        k = id(other)
        if k not in self.memo:
            q = self.compare(other)
            self.memo[k] = other.memo[id(self)] = q
        return self.memo[k]

    def compare(self, other):
        return eq(self.args, other.args)


class PointAtom(Atom):
    __slots__ = ()

    def compare(self, other):
        return point_eq(self.args, other.args)


def add_atom(atom):
    if all(type(c) is not int and c.bits is not None for c in atom.cells):
        index = state("atoms", {})
        for j, c in enumerate(atom.cells):
            index.setdefault(tuple(m & ~1 for m in c.bits), []).append((atom, j))


def atoms_at(cells, i):
    """Atoms that start at cells[i] and lie there whole: {kind: (atom, constants XORed on)}."""
    c = cells[i]
    if type(c) is int or c.bits is None:
        return None
    hits = state("atoms", {}).get(tuple(m & ~1 for m in c.bits))
    if not hits:
        return None
    out = {}
    for atom, j in hits:
        n = len(atom.cells)
        if j or i + n > len(cells):
            continue
        flips = []
        for x, y in zip(atom.cells, cells[i:i + n]):
            if type(y) is int or y.bits is None or len(x.bits) != len(y.bits):
                break
            d = tuple(a ^ b for a, b in zip(x.bits, y.bits))
            if any(m > 1 for m in d):
                break
            flips.append(d)
        else:
            out[atom.kind, n] = (atom, flips)
    return out


def deep_eq(a, b):
    """Equality of byte cells in terms of the arguments of the ideal functions they come from."""
    if len(a) != len(b):
        return False
    if len(a) < 16:
        return cells_eq(a, b)
    conds, ra, rb = [], [], []
    i = 0
    while i < len(a):
        if a[i] is b[i]:
            i += 1
            continue
        x = atoms_at(a, i)
        y = x and atoms_at(b, i)
        done = False
        if y:
            for k, (p, f) in x.items():
                q, g = y.get(k, (None, None))
                if q is None or f != g:
                    continue
                r = True if p is q else p.related(q)
                if r is None:
                    continue
                if r is False:
                    return False
                if r is not True:
                    conds.append(r)
                i += k[1]
                done = True
                break
        if not done:
            ra.append(a[i])
            rb.append(b[i])
            i += 1
    return b_and(cells_eq(tuple(ra), tuple(rb)), *conds)


def apply(fn, args, outlen, real=None, injective=True, fix=None):
    """fn(*args) as outlen fresh bytes, related to the earlier applications of fn on this path."""
    apps = state("uf:" + fn, [])
    for a0, o0 in apps:
        if eq(args, a0) is True and len(o0) == outlen:
            return o0
    if real is not None and all(is_conc(x) for x in args):
        out = real(*args)
    else:
        E().stubs.add(fn)
        out = fresh_bytes(fn, outlen)
        if fix is not None:
            out = fix(out)
    for a0, o0 in apps:
        if len(o0) != outlen or is_conc(out) and is_conc(o0):
            continue
        if any(type(x) is Rope for x in args) or any(type(x) is Rope for x in a0):
            c = eq(args, a0)        # may split cases
            relate(c, out, o0, injective)
        else:
            E().defer(lambda a0=a0, o0=o0: relation(eq(args, a0), out, o0, injective))
    apps.append((args, out))
    if injective and not is_conc(out) and not any(type(x) is Rope for x in args):
        add_atom(Atom(fn, as_seq(out).cells, args))
    return out


def relation(c, out, o0, injective):
    """z3 condition: equal outputs exactly (injective) or at least (not) for equal arguments."""
    if c is False and not injective:
        return None
    q = cells_eq(as_seq(out).cells, as_seq(o0).cells)
    if c is True:
        return V.zexpr(q)
    if c is False:
        return V.zexpr(b_not(q))
    if injective:
        return V.zexpr(c) == V.zexpr(q)
    return z3.Implies(V.zexpr(c), V.zexpr(q))


def relate(c, out, o0, injective):
    if c is False and not injective:
        return
    axiom_iff(c, cells_eq(as_seq(out).cells, as_seq(o0).cells), injective)


def axiom_iff(c, q, both=True):
    """c => q, and q => c if both."""
    e = E()
    if c is True:
        e.add(V.zexpr(q))
        V.learn(q)
    elif c is False:
        if both:
            e.add(V.zexpr(b_not(q)))
            V.learn(b_not(q))
    elif q is True:
        if both:
            e.add(V.zexpr(c))
            V.learn(c)
    elif q is False:
        e.add(V.zexpr(b_not(c)))
        V.learn(b_not(c))
    elif both:
        e.add(V.zexpr(c) == V.zexpr(q))
    else:
        e.add(z3.Implies(V.zexpr(c), V.zexpr(q)))


# ------------------------------------------------------------------------------------------- randomness
def draw(n, source="urandom"):
    """n fresh random bytes; draws of 16 bytes or more never collide."""
    e = E()
    n = idx(n)
    draws = state("draws", [])
    k = len(draws)
    name = "urandom!%d" % k
    if n < 0:
        raise ValueError("negative argument not allowed")
    mode = e.path_state.get("draw_mode", "symbolic")
    if mode == "symbolic" and n:
        out = fresh_bytes(name, n)
        e.inputs[name] = ("bytes", lambda m: bytes(ev(out, m)).hex())
        if n >= 16:
            for n0, o0, _ in draws:
                if n0 == n:
                    e.add(V.zexpr(b_not(eq(out, o0))))
    else:
        import random
        out = random.Random("%s/%d" % (mode, k)).randbytes(n)
        e.inputs[name] = ("bytes", lambda m: out.hex())
    draws.append((n, out, source))
    if n >= 16 and not is_conc(out):
        add_atom(Atom("draw", as_seq(out).cells, (k,)))
    return out


def ev(x, m):
    from ..harness import ev_int
    return [ev_int(c, m) for c in as_seq(x).cells]


@override(os.urandom)
def m_urandom(n):
    return draw(n)


@override(secrets.token_bytes)
def m_token_bytes(n=None):
    return draw(32 if n is None else n)


if hasattr(os, "getrandom"):
    @override(os.getrandom)
    def m_getrandom(n, flags=0):
        return draw(n)


# ------------------------------------------------------------------------------------------- hashes
SIZES = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha384": 48, "sha512": 64}
BLOCK = {"md5": 64, "sha1": 64, "sha224": 64, "sha256": 64, "sha384": 128, "sha512": 128}


def H(name, data):
    name = name.lower()
    data = norm(data)
    return apply(name, (data,), SIZES[name], lambda d: hashlib.new(name, d).digest())


def cat(*xs):
    r = b""
    for x in xs:
        r = rt_add(r, norm(x))
    return r


def rt_add(a, b):
    if type(a) is bytes and type(b) is bytes:
        return a + b
    if type(a) is Rope or type(b) is Rope:
        return Rope.of(a) + b
    return mkbytes(tuple(as_seq(a).cells) + tuple(as_seq(b).cells))


class Hasher(Model):
    def __init__(self, name, data=b""):
        if name.lower() not in SIZES:
            raise ValueError("unsupported hash type " + name)
        self.name = name.lower()
        self.digest_size = SIZES[self.name]
        self.block_size = BLOCK[self.name]
        self.data = norm(data)

    def update(self, data):
        need_bytes("data", data)
        self.data = rt_add(self.data, norm(data))

    def digest(self):
        return H(self.name, self.data)

    def hexdigest(self):
        d = self.digest()
        return d.hex()

    def copy(self):
        return Hasher(self.name, self.data)


def _mk_hash(name):
    f = getattr(hashlib, name)

    @override(f)
    def m(data=b"", *, usedforsecurity=True):
        need_bytes("data", data)
        return Hasher(name, data)


for _n in SIZES:
    _mk_hash(_n)


@override(hashlib.new)
def m_hash_new(name, data=b"", **k):
    return Hasher(name, data)


class CHash(Model):
    """cryptography.hazmat.primitives.hashes.Hash"""

    def __init__(self, algorithm, backend=None):
        self.algorithm = algorithm
        self.h = Hasher(algorithm.name)

    def update(self, data):
        if self.h is None:
            raise AlreadyFinalized("Context was already finalized.")
        self.h.update(data)

    def finalize(self):
        if self.h is None:
            raise AlreadyFinalized("Context was already finalized.")
        d = self.h.digest()
        self.h = None
        return d

    def copy(self):
        c = CHash(self.algorithm)
        c.h = self.h.copy()
        return c


@override(hashes.Hash)
def m_chash(algorithm, backend=None):
    return CHash(algorithm, backend)


def xor_pad(key, n, byte):
    cells = list(as_seq(key).cells)
    cells += [0] * (n - len(cells))
    return mkbytes([c ^ byte for c in cells])


def hmac_raw(name, key, msg):
    key, msg = norm(key), norm(msg)
    if type(key) is Rope:
        key = key.to_seq()
    n = BLOCK[name]
    if len(key) > n:
        key = H(name, key)
    inner = H(name, cat(xor_pad(key, n, 0x36), msg))
    return H(name, cat(xor_pad(key, n, 0x5C), inner))


class MHMAC(Model):
    """cryptography.hazmat.primitives.hmac.HMAC"""

    def __init__(self, key, algorithm, backend=None):
        need_bytes("key", key)
        if not isinstance(algorithm, hashes.HashAlgorithm):
            raise TypeError("Expected instance of hashes.HashAlgorithm.")
        self.key, self.algorithm, self.data = norm(key), algorithm, b""
        self.done = False

    def update(self, data):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")
        need_bytes("data", data)
        self.data = rt_add(self.data, norm(data))

    def finalize(self):
        if self.done:
            raise AlreadyFinalized("Context was already finalized.")
        self.done = True
        return hmac_raw(self.algorithm.name, self.key, self.data)

    def verify(self, signature):
        need_bytes("signature", signature)
        d = self.finalize()
        if not fork(eq(d, norm(signature))):
            raise InvalidSignature("Signature did not match digest.")

    def copy(self):
        c = MHMAC(self.key, self.algorithm)
        c.data = self.data
        return c


@override(CHMAC)
def m_chmac(key, algorithm, backend=None):
    return MHMAC(key, algorithm, backend)


class PyHMAC(Model):
    def __init__(self, key, msg, name):
        self.key, self.name, self.data = norm(key), name, b""
        self.digest_size, self.block_size = SIZES[name], BLOCK[name]
        if msg is not None:
            self.update(msg)

    def update(self, msg):
        self.data = rt_add(self.data, norm(msg))

    def digest(self):
        return hmac_raw(self.name, self.key, self.data)

    def hexdigest(self):
        return self.digest().hex()

    def copy(self):
        return PyHMAC(self.key, self.data, self.name)


def digestmod_name(d):
    if isinstance(d, str):
        return d.lower().replace("-", "")
    for n in SIZES:
        if d is getattr(hashlib, n):
            return n
    if hasattr(d, "__name__"):
        return d.__name__.replace("openssl_", "")
    raise ValueError("digestmod")


@override(py_hmac.new, py_hmac.HMAC)
def m_hmac_new(key, msg=None, digestmod=""):
    return PyHMAC(key, msg, digestmod_name(digestmod))


@override(py_hmac.digest)
def m_hmac_digest(key, msg, digest):
    return hmac_raw(digestmod_name(digest), key, msg)


def m_compare(a, b):
    return eq(norm(a) if not isinstance(a, str) else a, norm(b) if not isinstance(b, str) else b)


override(py_hmac.compare_digest)(m_compare)
override(constant_time.bytes_eq)(m_compare)
if secrets.compare_digest is not py_hmac.compare_digest:
    override(secrets.compare_digest)(m_compare)


class MHKDF(Model):
    def __init__(self, algorithm, length, salt, info, backend=None, expand_only=False):
        self.name = algorithm.name
        n = SIZES[self.name]
        self.length = length
        if fork(length > 255 * n):
            raise ValueError("Cannot derive keys larger than %d octets." % (255 * n))
        if salt is not None:
            need_bytes("salt", salt)
        if info is not None:
            need_bytes("info", info)
        self.salt = b"\0" * n if salt is None else norm(salt)
        self.info = b"" if info is None else norm(info)
        self.expand_only = expand_only
        self.used = False

    def derive(self, key_material):
        if self.used:
            raise AlreadyFinalized
        self.used = True
        need_bytes("key_material", key_material)
        ikm = norm(key_material)
        state("hkdf", []).append((self.salt, self.info, ikm, self.length))
        prk = ikm if self.expand_only else hmac_raw(self.name, self.salt, ikm)
        n = idx(self.length)
        out, t, i = b"", b"", 1
        while len(out) < n:
            t = hmac_raw(self.name, prk, cat(t, self.info, bytes([i])))
            out = rt_add(out, t)
            i += 1
        return out[:n] if len(out) != n else out

    def verify(self, key_material, expected_key):
        if not fork(eq(self.derive(key_material), norm(expected_key))):
            raise InvalidKey


@override(HKDF)
def m_hkdf(algorithm, length, salt, info, backend=None):
    return MHKDF(algorithm, length, salt, info, backend)


@override(HKDFExpand)
def m_hkdfexpand(algorithm, length, info, backend=None):
    return MHKDF(algorithm, length, None, info, backend, True)


# ------------------------------------------------------------------------------------------- scrypt, bcrypt
def scrypt_raw(password, salt, n, r, p, length):
    password, salt = norm(password), norm(salt)
    state("scrypt_calls", []).append((salt, n, r, p, password, length))
    if is_conc(password) and is_conc(salt) and type(n) is int:
        return standin.scrypt(password, salt, n, r, p, length)
    # PBKDF2-HMAC-SHA256 sees the passphrase only as an HMAC key block
    if type(password) is Rope:
        password = password.to_seq()
    if len(password) > 64:
        password = H("sha256", password)
    block = mkbytes(tuple(as_seq(password).cells) + (0,) * (64 - len(password)))
    return apply("scrypt", (block, salt, n, r, p, length), idx(length))


class MScrypt(Model):
    def __init__(self, salt, length, n, r, p, backend=None):
        need_bytes("salt", salt)
        if fork(n < 2) or fork((n & (n - 1)) != 0):
            raise ValueError("n must be greater than 1 and be a power of 2.")
        if r < 1 or p < 1:
            raise ValueError("r and p must be greater than or equal to 1.")
        self.args = (norm(salt), n, r, p)
        self.length = length
        self.used = False

    def derive(self, key_material):
        if self.used:
            raise AlreadyFinalized("Scrypt instances can only be used once.")
        self.used = True
        need_bytes("key_material", key_material)
        salt, n, r, p = self.args
        return scrypt_raw(key_material, salt, n, r, p, self.length)

    def verify(self, key_material, expected_key):
        if not fork(eq(self.derive(key_material), norm(expected_key))):
            raise InvalidKey("Keys do not match.")


@override(Scrypt)
def m_scrypt(salt, length, n, r, p, backend=None):
    return MScrypt(salt, length, n, r, p, backend)


@override(hashlib.scrypt)
def m_hashlib_scrypt(password, *, salt, n, r, p, maxmem=0, dklen=64):
    return scrypt_raw(password, salt, n, r, p, dklen)


@override(bcrypt.kdf)
def m_bcrypt_kdf(password, salt, desired_key_bytes, rounds, ignore_few_rounds=False):
    if isinstance(password, str) or isinstance(salt, str):
        raise TypeError("Strings must be encoded before hashing")
    password, salt = norm(password), norm(salt)
    if not fork(blen(password) != 0) or not fork(blen(salt) != 0):
        raise ValueError("password and salt must not be empty")
    n = idx(desired_key_bytes)
    if n <= 0 or n > 512:
        raise ValueError("desired_key_bytes must be 1-512")
    if fork(rounds < 1):
        raise ValueError("rounds must be 1 or more")

    def real(pw, s, k, r):
        if r > 64:
            return None
        return bcrypt.kdf(pw, s, k, r, ignore_few_rounds=True)
    if all(is_conc(x) for x in (password, salt, rounds)) and rounds <= 64:
        return apply("bcrypt_kdf", (password, salt, n, rounds), n, real)
    return apply("bcrypt_kdf", (password, salt, n, rounds), n)


# ------------------------------------------------------------------------------------------- AEAD
class MAead(Model):
    def __init__(self, key):
        need_bytes("key", key)
        self.key = norm(key)
        if not fork(blen(self.key) == 32):
            raise ValueError("ChaCha20Poly1305 key must be 32 bytes.")

    def _params(self, nonce, data, ad):
        need_bytes("nonce", nonce)
        need_bytes("data", data)
        if ad is None:
            ad = b""
        need_bytes("associated_data", ad)
        nonce = norm(nonce)
        if not fork(blen(nonce) == 12):
            raise ValueError("Nonce must be 12 bytes")
        return nonce, norm(data), norm(ad)

    def encrypt(self, nonce, data, associated_data=None):
        nonce, data, ad = self._params(nonce, data, associated_data)
        recs = state("aead", [])
        for key0, n0, ad0, pt0, ct0 in recs:
            q = eq((self.key, nonce, ad), (key0, n0, ad0))
            if type(data) is Rope and type(pt0) is Rope and q is not False:
                # long contents have no axiom relating them: split the cases
                hit = fork(q) and (same(data, pt0) or fork(eq(data, pt0)))
            else:
                hit = q is True and same(data, pt0)
            if hit:
                state("seals", []).append((self.key, nonce, ad, data, ct0))
                return ct0
        if is_conc(self.key) and is_conc(nonce) and is_conc(data) and is_conc(ad):
            ct = ChaCha20Poly1305(self.key).encrypt(nonce, data, ad)
        elif type(data) is Rope:
            E().stubs.add("ChaCha20Poly1305")
            b = Blob(E().fresh_name("ct"), data.length() + 16, "ct")
            ct = Rope.blob(b)
        else:
            E().stubs.add("ChaCha20Poly1305")
            ct = fresh_bytes("ct", len(data) + 16)
            for key0, n0, ad0, pt0, c0 in recs:
                if type(c0) is Rope or len(c0) != len(ct):
                    continue
                if is_conc(c0) and is_conc(ct):
                    continue
                axiom_iff(eq((self.key, nonce, ad, data), (key0, n0, ad0, pt0)), eq(ct, c0))
        recs.append((self.key, nonce, ad, data, ct))
        state("seals", []).append((self.key, nonce, ad, data, ct))
        return ct

    def decrypt(self, nonce, data, associated_data=None):
        nonce, data, ad = self._params(nonce, data, associated_data)
        short = blen(data) < 16
        if fork(short):
            raise InvalidTag
        recs = state("aead", [])
        for key0, n0, ad0, pt0, ct0 in recs:
            c = eq((nonce, ad), (n0, ad0))
            if c is False:
                continue
            if type(data) is not Rope and type(ct0) is not Rope and len(data) != len(ct0):
                continue
            c = b_and(c, eq(self.key, key0))
            if c is False or not fork(c):
                continue
            if fork(eq(data, ct0)):
                state("opens", []).append((self.key, nonce, pt0))
                return pt0
        if all(is_conc(x) for x in (self.key, nonce, data, ad)):
            pt = ChaCha20Poly1305(self.key).decrypt(nonce, data, ad)
            recs.append((self.key, nonce, ad, pt, data))
            return pt
        raise InvalidTag


def same(a, b):
    """Syntactic equality (no case split)."""
    if type(a) is Rope or type(b) is Rope:
        if type(a) is not type(b) or len(a.segs) != len(b.segs):
            return False
        for s, t in zip(a.segs, b.segs):
            if s[0] != t[0]:
                return False
            if s[0] == "c":
                if cells_eq(s[1], t[1]) is not True:
                    return False
            elif s[1] is not t[1] or rt_same(s[2], t[2]) is not True or rt_same(s[3], t[3]) is not True:
                return False
        return True
    return eq(a, b) is True


def rt_same(a, b):
    """True if equal on this path (asks the solver, splits nothing)."""
    if a is b:
        return True
    q = V.norm_int(a) == V.norm_int(b)
    if type(q) is V.SymBool and q.known() is None:
        return bool(E().entails(q.e))
    return q if type(q) is bool else bool(q.known())


@override(ChaCha20Poly1305)
def m_aead(key):
    return MAead(key)


@override(ChaCha20Poly1305.generate_key.__func__ if hasattr(ChaCha20Poly1305.generate_key, "__func__")
          else ChaCha20Poly1305.generate_key)
def m_aead_genkey(*a):
    return draw(32)


# ------------------------------------------------------------------------------------------- X25519
P25519 = 2 ** 255 - 19
LOW_ORDER = [
    0, 1, P25519 - 1, P25519, P25519 + 1,
    325606250916557431795983626356110631294008115727848805560023387167927233504,
    39382357235489614581723060781553021112529911719440698176882885853963445705823,
]
LOW_ORDER = [x.to_bytes(32, "little") for x in LOW_ORDER]


def clamp(s):
    c = list(as_seq(s).cells)
    c[0] = c[0] & 248
    c[31] = (c[31] & 127) | 64
    return mkbytes(c)


def mask(p):
    c = list(as_seq(p).cells)
    c[31] = c[31] & 127
    return mkbytes(c)


def fit32(x):
    """What libsodium reads through a pointer to x."""
    need_bytes("argument", x)
    x = norm(x)
    if type(x) is Rope:
        x = x.to_seq()
    n = len(x)
    if n >= 32:
        return x[:32]
    x = cat(x, b"\0")
    if len(x) < 32:
        E().assumptions.add("memory read behind a short X25519 argument is arbitrary")
        x = cat(x, fresh_bytes("oob", 32 - len(x)))
    return x


def points():
    """Known points: (value, base, scalars); base is None for the base point or the bytes of a generic point."""
    return state("points", [])


def perms_eq(xs, ys):
    if len(xs) != len(ys):
        return False
    if len(xs) == 1:
        return scalar_eq(xs[0], ys[0])
    import itertools
    return b_or(*[b_and(*[scalar_eq(x, y) for x, y in zip(xs, p)]) for p in itertools.permutations(ys)])


def drawn(x):
    """Index of the random draw a clamped scalar is, or None."""
    if is_conc(x):
        return None
    mid = as_seq(x).cells[1]
    if type(mid) is int or mid.bits is None:
        return None
    for k, (n, out, _) in enumerate(state("draws", [])):
        if n == 32 and not is_conc(out):
            c = as_seq(out).cells[1]
            if type(c) is not int and c.bits == mid.bits:
                return k
    return None


def scalar_eq(x, y):
    """Equality of clamped scalars; a random draw is equal to nothing else."""
    a, b = drawn(x), drawn(y)
    if a is None and b is None:
        return eq(x, y)
    q = eq(x, y)
    if a == b or type(q) is bool:
        return q
    done = state("drawn_differs", set())
    key = (id(x), id(y))
    if key not in done:
        done.add(key)
        state("drawn_keep", []).append((x, y))
        E().assumptions.add("a random ephemeral secret differs from every other scalar")
        E().add(V.zexpr(b_not(q)))
    return False


def record_point(base, scalars, real=None):
    """The point obtained by applying the clamped scalars to base."""
    for v, b0, s0 in points():
        if b0 is base or (b0 is not None and base is not None and eq(b0, base) is True):
            if perms_eq(scalars, s0) is True:
                return v
    if all(is_conc(s) for s in scalars) and (base is None or is_conc(base)):
        v = nb.crypto_scalarmult_base(scalars[0]) if base is None else nb.crypto_scalarmult(scalars[0], base)
        for s in scalars[1:]:
            v = nb.crypto_scalarmult(s, v)
    else:
        E().stubs.add("X25519")
        v = fresh_bytes("point", 32)
        c = list(as_seq(v).cells)
        c[31] = c[31] & 127
        v = mkbytes(c)
        for lo in LOW_ORDER:
            E().add(V.zexpr(b_not(eq(v, lo))))
    for v0, b0, s0 in points():
        if is_conc(v) and is_conc(v0):
            continue
        c = point_eq((base, scalars), (b0, s0))
        if c is None:
            continue
        axiom_iff(c, cells_eq(as_seq(v).cells, as_seq(v0).cells))
    points().append((v, base, tuple(scalars)))
    if not is_conc(v):
        add_atom(PointAtom("point", as_seq(v).cells, (base, tuple(scalars))))
    return v


def point_eq(p, q):
    """When are two points the same?  None: unrelated (nothing is assumed)."""
    (base, scalars), (b0, s0) = p, q
    if len(s0) != len(scalars):
        # a different number of scalars acting: different points
        return False
    if b0 is None and base is None:
        return perms_eq(scalars, s0)
    if b0 is None or base is None:
        return False
    same_base = True if b0 is base else eq(b0, base)
    c = b_and(same_base, perms_eq(scalars, s0))
    # same point under another scalar (or the other way round) differs; two different
    # points under different scalars are unrelated
    if c is not True and same_base is False and perms_eq(scalars, s0) is False:
        return None
    return c


def known_point(p):
    """(base, scalars) of a point, splitting cases on equality with the points seen so far."""
    p = mask(p)
    for v, b, s in points():
        if eq(p, v) is True:
            return b, s
    if is_conc(p):
        for v, b, s in points():
            if not is_conc(v) and fork(eq(p, v)):
                return b, s
        return p, ()
    for v, b, s in points():
        if fork(eq(p, v)):
            return b, s
    return p, ()


def base_mult(s):
    s = clamp(fit32(s))
    return record_point(None, (s,))


def mult(s, p):
    s, p = clamp(fit32(s)), fit32(p)
    b, scalars = known_point(p)
    if b is not None and not scalars:
        for lo in LOW_ORDER:
            if fork(eq(b, lo)):
                raise nexc.RuntimeError("Unexpected library error")
    return record_point(b, (s,) + tuple(scalars))


@override(nb.crypto_scalarmult_base)
def m_scalarmult_base(n):
    return base_mult(n)


@override(nb.crypto_scalarmult)
def m_scalarmult(n, p):
    return mult(n, p)


@override(nb.crypto_core_ed25519_scalar_reduce)
def m_reduce(s):
    if not isinstance(s, bytes) or not fork(blen(s) == 64):
        raise nexc.TypeError("Integer s must be a crypto_core_ed25519_NONREDUCEDSCALARBYTES long bytes sequence")

    def fix(out):
        c = list(as_seq(out).cells)
        c[31] = c[31] & 15
        return mkbytes(c)
    s = norm(s)
    out = apply("ed25519_scalar_reduce", (s,), 32, nb.crypto_core_ed25519_scalar_reduce, fix=fix)
    independent("ed25519_scalar_reduce", s, out)
    return out


def independent(fn, arg, out):
    """Scalars derived by hashing different things stay different when clamped."""
    apps = state("hashed_scalars", [])
    if any(f == fn and o is out for f, a, o in apps):
        return
    E().assumptions.add("scalars hashed from different inputs stay different after clamping")
    for f, a, o in apps:
        if is_conc(out) and is_conc(o):
            continue
        same_input = False if f != fn else eq(arg, a)
        if same_input is True:
            continue
        E().defer(lambda o=o, same_input=same_input:
                  z3.Implies(V.zexpr(b_not(same_input)), V.zexpr(b_not(eq(clamp(out), clamp(o))))))
    apps.append((fn, arg, out))


class MXPriv(Model):
    def __init__(self, data):
        self.data = data

    def private_bytes(self, encoding, format, encryption_algorithm):
        if encoding is ser.Encoding.Raw:
            if format is not ser.PrivateFormat.Raw or not isinstance(encryption_algorithm, ser.NoEncryption):
                raise ValueError("When using Raw both encoding and format must be Raw "
                                 "and encryption_algorithm must be NoEncryption()")
            return self.data
        raise unsupported("X25519 private_bytes")

    def private_bytes_raw(self):
        return self.data

    def public_key(self):
        return MXPub(base_mult(self.data))

    def exchange(self, peer):
        return mult(self.data, peer.data)


class MXPub(Model):
    def __init__(self, data):
        self.data = data

    def public_bytes(self, encoding, format):
        if encoding is ser.Encoding.Raw:
            if format is not ser.PublicFormat.Raw:
                raise ValueError("When using Raw both encoding and format must be Raw")
            return self.data
        raise unsupported("X25519 public_bytes")

    def public_bytes_raw(self):
        return self.data

    def __eq__(self, o):
        return isinstance(o, MXPub) and eq(self.data, o.data)

    def __hash__(self):
        return 7


def unsupported(what):
    return E()._die(_eng.HarnessError("unmodelled: " + what))


c_x.X25519PrivateKey.register(MXPriv)
c_x.X25519PublicKey.register(MXPub)


def raw32(data, what):
    if isinstance(data, str):
        raise TypeError("a bytes-like object is required")
    need_bytes("data", data)
    data = norm(data)
    if not fork(blen(data) == 32):
        raise ValueError(what)
    return data.to_seq() if type(data) is Rope else data


@override(c_x.X25519PrivateKey.from_private_bytes.__func__)
def m_x_from_private(cls, data):
    return MXPriv(raw32(data, "An X25519 private key is 32 bytes long"))


@override(c_x.X25519PublicKey.from_public_bytes.__func__)
def m_x_from_public(cls, data):
    return MXPub(raw32(data, "An X25519 public key is 32 bytes long"))


@override(c_x.X25519PrivateKey.generate.__func__)
def m_x_generate(cls):
    return MXPriv(draw(32, "X25519PrivateKey.generate"))


# ------------------------------------------------------------------------------------------- Ed25519
def ed_pub(seed):
    def real(s):
        return c_ed.Ed25519PrivateKey.from_private_bytes(s).public_key().public_bytes(
            ser.Encoding.Raw, ser.PublicFormat.Raw)
    return apply("ed25519_public", (norm(seed),), 32, real)


def ed_scalar(seed):
    def real(s):
        return nb.crypto_sign_ed25519_sk_to_curve25519(s + bytes(32))
    out = apply("ed25519_scalar", (norm(seed),), 32, real, fix=clamp)
    independent("ed25519_scalar", norm(seed), out)
    return out


@override(nb.crypto_sign_ed25519_sk_to_curve25519)
def m_sk_conv(sk):
    if not fork(blen(sk) == 64):
        raise nexc.ValueError("Invalid curve secret key")
    return ed_scalar(norm(sk)[:32])


@override(nb.crypto_sign_ed25519_pk_to_curve25519)
def m_pk_conv(pk):
    if not fork(blen(pk) == 32):
        raise nexc.ValueError("Invalid curve public key")
    pk = norm(pk)
    for (seed,), out in list(state("uf:ed25519_public", [])):
        if eq(out, pk) is True:
            return base_mult(ed_scalar(seed))
    for (seed,), out in list(state("uf:ed25519_public", [])):
        if fork(eq(mask(out), mask(pk))):
            return base_mult(ed_scalar(seed))
    if is_conc(pk):
        return nb.crypto_sign_ed25519_pk_to_curve25519(pk)
    E().assumptions.add("a generic Ed25519 public key is a valid point")
    return apply("ed25519_to_curve", (mask(pk),), 32, fix=mask)


def ed_wire(pk):
    return cat(b"\0\0\0\x0bssh-ed25519\0\0\0\x20", pk)


def b64(data):
    from .encoding import b64encode
    return b64encode(data)


class MEdPriv(Model):
    def __init__(self, seed):
        self.seed = seed

    def public_key(self):
        return MEdPub(ed_pub(self.seed))

    def private_bytes(self, encoding, format, encryption_algorithm):
        if encoding is ser.Encoding.Raw and format is ser.PrivateFormat.Raw:
            if not isinstance(encryption_algorithm, ser.NoEncryption):
                raise ValueError("encryption_algorithm must be NoEncryption()")
            return self.seed
        raise unsupported("Ed25519 private_bytes")

    def private_bytes_raw(self):
        return self.seed


class MEdPub(Model):
    def __init__(self, data):
        self.data = data

    def public_bytes(self, encoding, format):
        if encoding is ser.Encoding.Raw and format is ser.PublicFormat.Raw:
            return self.data
        if encoding is ser.Encoding.OpenSSH and format is ser.PublicFormat.OpenSSH:
            return cat(b"ssh-ed25519 ", b64(ed_wire(self.data)))
        raise unsupported("Ed25519 public_bytes")

    def public_bytes_raw(self):
        return self.data


c_ed.Ed25519PrivateKey.register(MEdPriv)
c_ed.Ed25519PublicKey.register(MEdPub)


@override(c_ed.Ed25519PrivateKey.from_private_bytes.__func__)
def m_ed_from_private(cls, data):
    return MEdPriv(raw32(data, "An Ed25519 private key is 32 bytes long"))


@override(c_ed.Ed25519PublicKey.from_public_bytes.__func__)
def m_ed_from_public(cls, data):
    return MEdPub(raw32(data, "An Ed25519 public key is 32 bytes long"))


@override(c_ed.Ed25519PrivateKey.generate.__func__)
def m_ed_generate(cls):
    return MEdPriv(draw(32, "Ed25519PrivateKey.generate"))


# ------------------------------------------------------------------------------------------- RSA
def mpint(x):
    """Wire form of a positive number of given bytes without leading zero."""
    top = as_seq(x).cells[0]
    x = cat(b"\0", x) if fork(top >= 128) else x
    return cat(len(x).to_bytes(4, "big"), x)


class MRsaPriv(Model):
    """An RSA key: opaque but for its public numbers; `ident` identifies it."""

    def __init__(self, ident, e_bytes, n_bytes, bits, real=None):
        self.ident, self.e_bytes, self.n_bytes, self.bits, self.real = ident, e_bytes, n_bytes, bits, real
        self.key_size = bits

    def public_key(self):
        return MRsaPub(self.ident, self.e_bytes, self.n_bytes, self.bits, self.real)

    def decrypt(self, ciphertext, padding):
        need_bytes("ciphertext", ciphertext)
        size = (self.bits + 7) // 8
        ct = norm(ciphertext)
        if not fork(blen(ct) == size):
            raise ValueError("Ciphertext length must be equal to key size.")
        for ident, pad0, pt0, ct0 in state("rsa", []):
            if ident != self.ident or pad_id(padding)[:2] != pad0[:2]:
                continue
            if fork(b_and(eq(pad_id(padding)[2], pad0[2]), eq(ct, ct0))):
                return pt0
        if is_conc(ct) and self.real is not None:
            from cryptography.hazmat.primitives.asymmetric import padding as _pad
            alg, mgf, label = pad_id(padding)
            if is_conc(label):
                return self.real.decrypt(ct, _pad.OAEP(_pad.MGF1(getattr(hashes, mgf.upper())()),
                                                       getattr(hashes, alg.upper())(), label))
        raise ValueError("Encryption/decryption failed.")


class MRsaPub(Model):
    def __init__(self, ident, e_bytes, n_bytes, bits, real=None):
        self.ident, self.e_bytes, self.n_bytes, self.bits, self.real = ident, e_bytes, n_bytes, bits, real
        self.key_size = bits

    def public_bytes(self, encoding, format):
        if encoding is ser.Encoding.OpenSSH and format is ser.PublicFormat.OpenSSH:
            wire = cat(b"\0\0\0\x07ssh-rsa", mpint(self.e_bytes), mpint(self.n_bytes))
            return cat(b"ssh-rsa ", b64(wire))
        raise unsupported("RSA public_bytes")

    def public_numbers(self):
        return MRsaNumbers(rt.int_from_bytes(self.e_bytes), rt.int_from_bytes(self.n_bytes))

    def encrypt(self, plaintext, padding):
        need_bytes("plaintext", plaintext)
        size = (self.bits + 7) // 8
        pt = norm(plaintext)
        p = pad_id(padding)
        if fork(blen(pt) > size - 2 * SIZES[p[0]] - 2):
            raise ValueError("Encryption failed")
        E().stubs.add("RSA-OAEP")
        recs = state("rsa", [])
        if is_conc(pt) and is_conc(p[2]) and isinstance(self.ident, tuple):
            ct = standin.oaep_encrypt(self.ident[1], self.ident[2], pt, p[2], p[0], p[1])
        else:
            ct = fresh_bytes("rsact", size)
            for ident, pad0, pt0, ct0 in recs:
                if len(ct0) == len(ct):
                    E().add(V.zexpr(b_not(eq(ct, ct0))))
        recs.append((self.ident, p, pt, ct))
        return ct


class MRsaNumbers(Model):
    def __init__(self, e, n):
        self.e, self.n = e, n

    def __eq__(self, other):
        if not isinstance(other, MRsaNumbers):
            return NotImplemented
        return b_and(self.e == other.e, self.n == other.n)

    def __hash__(self):
        return hash((self.e, self.n))


def pad_id(p):
    """(hash, MGF hash, label)"""
    if type(p).__name__ != "OAEP":
        raise unsupported("RSA padding " + type(p).__name__)
    label = p._label if p._label is not None else b""
    return (p._algorithm.name, p._mgf._algorithm.name, norm(label))


c_rsa.RSAPrivateKey.register(MRsaPriv)
c_rsa.RSAPublicKey.register(MRsaPub)


# ------------------------------------------------------------------------------------------- AES-CTR
class MCtr(Model):
    """One direction of AES in counter mode: XOR with a keystream."""

    def __init__(self, key, iv, decrypting):
        self.key, self.iv, self.pos = key, iv, 0

    def update(self, data):
        need_bytes("data", data)
        data = norm(data)
        if type(data) is Rope:
            data = data.to_seq()
        n = len(data)
        ks = keystream(self.key, self.iv, self.pos + n)[self.pos:]
        self.pos += n
        return mkbytes([a ^ b for a, b in zip(as_seq(data).cells, as_seq(ks).cells)])

    def finalize(self):
        return b""


def keystream(key, iv, n):
    store = state("aesctr", [])
    if is_conc(key) and is_conc(iv):
        from cryptography.hazmat.primitives.ciphers import algorithms, modes
        enc = Cipher(algorithms.AES(key), modes.CTR(iv)).encryptor()
        return enc.update(bytes(n))
    E().stubs.add("AES-CTR")
    for k0, i0, ks in store:
        if fork(eq((key, iv), (k0, i0))):
            while len(ks[0]) < n:
                ks[0] = cat(ks[0], fresh_bytes("aesctr", n - len(ks[0])))
            return ks[0][:n]
    ks = [fresh_bytes("aesctr", n)]
    store.append((key, iv, ks))
    return ks[0]


class MCipher(Model):
    def __init__(self, algorithm, mode, backend=None):
        if type(algorithm).__name__ != "MAES" or type(mode).__name__ != "MCTR":
            raise unsupported("cipher")
        self.a, self.m = algorithm, mode

    def encryptor(self):
        return MCtr(self.a.key, self.m.nonce, False)

    def decryptor(self):
        return MCtr(self.a.key, self.m.nonce, True)


@override(Cipher)
def m_cipher(algorithm, mode, backend=None):
    return MCipher(algorithm, mode, backend)


class MAES(Model):
    name = "AES"
    block_size = 128

    def __init__(self, key):
        need_bytes("key", key)
        self.key = norm(key)
        if len(self.key) not in (16, 24, 32):
            raise ValueError("Invalid key size (%d) for AES." % (8 * len(self.key)))
        self.key_size = 8 * len(self.key)


class MCTR(Model):
    name = "CTR"

    def __init__(self, nonce):
        need_bytes("nonce", nonce)
        self.nonce = norm(nonce)
        if len(self.nonce) != 16:
            raise ValueError("Invalid nonce size (%d) for CTR." % len(self.nonce))


from cryptography.hazmat.primitives.ciphers import algorithms as _alg, modes as _modes  # noqa: E402


@override(_alg.AES)
def m_aes(key):
    return MAES(key)


@override(_modes.CTR)
def m_ctr(nonce):
    return MCTR(nonce)
