"""Concrete side of the harness: the same harness functions run against the real, uninstrumented code.

usage: python native.py MODULE JOBS.json   ->  writes one JSON result per job on stdout
"""
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import traceback


class Skip(BaseException):
    """The input does not satisfy an assumption (or was never fixed by the solver)."""


class Failed(BaseException):
    def __init__(self, label):
        super().__init__(label)
        self.label = label


def det_bytes(seed, n):
    return random.Random(seed).randbytes(n)


class NativeH:
    native = True

    def __init__(self, values, tier):
        self.leak_seen = False
        self.values = values
        self.tier = tier
        self.names = {}
        self.tmp = []
        self.checked = []
        self.undo = []
        self.state = {}

    def _key(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s!%d" % (name, n)

    def _get(self, name):
        return self.values.get(self._key(name))

    def bytes(self, name, n):
        v = self._get(name)
        return bytes.fromhex(v) if v is not None else bytes(n)

    def text(self, name, n, chars=None, lo=0, hi=0x10FFFF):
        v = self._get(name)
        if v is not None:
            return v
        return (sorted(chars)[0] if chars is not None else chr(lo)) * n

    def int(self, name, lo, hi):
        v = self._get(name)
        return v if v is not None else lo

    def bool(self, name):
        return self.int(name, 0, 1) != 0

    def choose(self, name, options):
        options = list(options)
        v = self._get(name) if len(options) > 1 else self._get(name)
        return options[v or 0]

    def blob(self, name, lo, hi, origin=None):
        n = self.int(name + ".len", lo, hi)
        self.names["blob:" + name] = self.names.get("blob:" + name, 0) + 1
        return det_bytes("%s/%d" % (name, self.names["blob:" + name]), n)

    def other(self, name, value):
        v = self._get(name)
        d = bytes.fromhex(v) if v is not None else b""
        if len(d) != len(value) or not any(d):
            d = bytes(len(value) - 1) + b"\x01" if value else b""
        if not value:
            raise Skip()
        return bytes(a ^ b for a, b in zip(value, d))

    def substitute(self, name, data, supports, alphabet):
        d = self._get(name)
        if d is None or tuple(i for i, x in enumerate(d) if x) not in set(map(tuple, supports)):
            d = [int(i in tuple(supports[0])) for i in range(len(data))]
        return "".join(alphabet[alphabet.index(c) ^ x] for c, x in zip(data, d))

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        self.checked.append(label)
        if not c:
            raise Failed(label)

    def fail(self, label):
        raise Failed(label)

    def cover(self, label):
        self.checked.append(label)

    def all(self, *cs):
        return all(bool(c) for c in cs)

    def any(self, *cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def decide(self, c):
        return bool(c)

    def sure(self, c):
        return bool(c)

    def run(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            return None, e

    def path_state(self):
        return self.state

    def mod(self, name):
        return importlib.import_module(name)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="sxn.")
        self.tmp.append(d)
        return d

    def patch(self, obj, name, value):
        old = obj.__dict__[name] if isinstance(obj, type) else getattr(obj, name)
        self.undo.append((obj, name, old))
        setattr(obj, name, value)

    def cleanup(self):
        for obj, name, old in reversed(self.undo):
            setattr(obj, name, old)
        self.undo = []
        for d in self.tmp:
            shutil.rmtree(d, ignore_errors=True)
        self.tmp = []

    def note(self, what):
        pass


def run_job(mod, job):
    h = make(job["values"], job.get("tier", "quick"))
    cwd = os.getcwd()
    env = dict(os.environ)
    try:
        h.start()
        getattr(mod, job["fn"])(h, **job["params"])
        return {"status": "ok", "checked": h.checked}
    except Skip:
        return {"status": "skip"}
    except Failed as e:
        return {"status": "failed", "label": e.label, "leak": h.leak_seen}
    except Exception as e:
        return {"status": "failed", "label": "unexpected exception", "detail": "%s: %s" % (type(e).__name__, e),
                "trace": traceback.format_exc()[-1500:]}
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(env)
        h.cleanup()


def make(values, tier):
    from sx import natenv
    return natenv.EnvH(values, tier)


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    sys.path[0:1] = [os.path.dirname(here), os.path.join(os.environ.get("SX_REPO", "/repo"), "src")]
    with open(sys.argv[2]) as f:
        jobs = json.load(f)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    make({}, "quick")           # installs the hooks before the code under check is imported
    mod = importlib.import_module(sys.argv[1])
    for i, job in enumerate(jobs):
        out.write(json.dumps(run_job(mod, job)) + "\n")
        out.flush()


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from sx import native as _self      # one copy of the exception classes
    _self.main()
