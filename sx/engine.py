"""Path exploration: depth-first re-execution with an incremental Z3 solver.

One `Engine` explores one harness case.  The harness is executed again for every path; at a branch on
a symbolic condition the engine asks Z3 which sides are feasible under the path constraints, follows
one and remembers the other.  The solver stack is kept aligned with the decision trail, so a
re-executed prefix costs no solver work.
"""
import gc
import os
import random
import sys
import time

import z3


class Control(BaseException):
    """Engine control flow: never caught by code under test (not an Exception)."""


class Infeasible(Control):
    pass


class Budget(Control):
    pass


SLOW = float(os.environ.get("SX_SLOW", "0"))     # seconds; report slower queries


class Violation(Control):
    def __init__(self, label, model_inputs):
        super().__init__(label)
        self.label = label
        self.inputs = model_inputs
        self.refuted = None       # negated obligation
        self.where = (label, ())  # label and the choices made on the path


class HarnessError(Control):
    """The machinery failed (divergence, solver unknown on a needed verdict ...)."""


ENGINE = None


def current():
    return ENGINE


def full_reduce(m, rows):
    r = m
    for n in sorted(rows, reverse=True):
        if (r >> (n - 1)) & 1:
            r ^= rows[n]
    return r


class _Entry:
    __slots__ = ("kind", "val", "cond", "alts", "key")

    def __init__(self, kind, val, cond, alts, key):
        self.kind = kind      # 'b' binary on condition, 'f' forced binary, 'c' n-ary choice
        self.val = val
        self.cond = cond
        self.alts = alts      # remaining alternatives (list of values)
        self.key = key


class Engine:
    def __init__(self, timeout_s=600.0, solver_timeout_ms=60000, max_paths=100000):
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.solver_timeout_ms = solver_timeout_ms
        self.max_paths = max_paths
        self.deadline = time.time() + timeout_s
        self.trail = []
        self.pos = 0
        self.path_id = 0
        self.running = False
        self.dead = None
        # statistics
        self.paths = 0
        self.infeasible_paths = 0
        self.forks = 0
        self.queries = 0
        self.solver_time = 0.0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.checks_reached = {}
        self.incomplete = {}
        self.functions = set()
        self.stubs = set()
        self.bounds = []
        self.path_inputs = []   # concrete witnesses of some finished paths
        self.assumptions = set()
        self.witness_limit = 6
        self._simp = {}
        self.nflushed = 0         # deferred axioms the solver has already been given
        self.flush_stack = []
        self.skip_labels = set()
        self._reset_path()

    # ------------------------------------------------------------------ path state
    def _reset_path(self):
        self.pos = 0
        self.facts = {}
        self._keep = []
        self.names = {}
        self.inputs = {}
        self.leaf_of = {}
        self.leaf_ids = {}
        self.nvars = 1            # affine variable indices start at 1 (bit 0 is the constant)
        self.leaf_info = {}       # var index -> (leaf, bit)
        self.model = None
        self.dead = None
        self.lin = {}             # affine equations known on the path: pivot -> row
        self.lin_order = []
        self.neq = []             # tuples of affine masks known not to be all zero
        self.splits = None        # (variables per position, supports): at most these are non-zero together
        self.path_state = {}      # per-path registries of the environment models
        self.path_labels = []
        self.deferred = []        # axioms (thunks), given to the solver when it is next asked something
        self.input_leaves = []    # groups of variables that stand for inputs and random draws

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def fresh_bv(self, base, width):
        return z3.BitVec(self.fresh_name(base), width)

    def lin_reduce(self, mask):
        """Normal form of an affine bit under the equations of the path."""
        for p in self.lin_order:
            if p > mask:
                continue
            if mask & p:
                mask ^= self.lin[p]
                if mask <= 1:
                    break
        return mask

    def lin_learn(self, masks, lemma):
        for m in masks:
            m = self.lin_reduce(m)
            if m == 0:
                continue
            if m == 1:
                raise self._die(Infeasible())
            p = 1 << (m.bit_length() - 1)
            self.lin[p] = m
            k = 0
            while k < len(self.lin_order) and self.lin_order[k] > p:
                k += 1
            self.lin_order.insert(k, p)
            if lemma and not self.replaying():
                from .values import bit_to_z3
                self.solver.add(bit_to_z3(p) == bit_to_z3(m ^ p))

    def recorded(self, compute):
        """Value of a solver question, recorded so that re-execution does not ask again."""
        if self.dead is not None:
            raise self.dead
        if self.pos < len(self.trail):
            t = self.trail[self.pos]
            if t.kind != "p":
                raise self._die(HarnessError("divergence on re-execution at a recorded question"))
            self.pos += 1
            return t.val
        v = compute()
        self.trail.append(_Entry("p", v, None, [], None))
        self.pos += 1
        return v

    def lin_impossible(self, masks):
        """Can the affine forms `masks` not all be zero on this path?"""
        rows = {}

        def red(m):
            while m > 1:
                p = rows.get(m.bit_length())
                if p is None:
                    break
                m ^= p
            return m
        for m in masks:
            m = red(self.lin_reduce(m))
            if m == 1:
                return True
            if m:
                rows[m.bit_length()] = m
        for t in self.neq:
            if not any(full_reduce(self.lin_reduce(m), rows) for m in t):
                return True
        if self.splits is not None:
            combo = self.recorded(lambda: self._split_question(masks))
            if combo == "none":
                return True
            if combo is not None:
                for k, leaf in enumerate(self.splits[0]):
                    self.add(leaf != 0 if k in combo else leaf == 0)
                self.splits = None
        return False

    def _split_question(self, masks):
        """First support on which the forms can vanish ("none": no support; None: not applicable)."""
        leaves, supports = self.splits
        pos = [sum(self.leaf_bits(x)) for x in leaves]
        free = 1
        for p in pos:
            free |= p
        if any(m & ~free for m in masks):
            return None
        s = z3.Solver()
        s.set("timeout", self.solver_timeout_ms)
        from .values import bit_to_z3
        t0 = time.time()
        try:
            for sup in supports:
                if time.time() > self.deadline:
                    raise self._die(Budget("time budget"))
                keep = 1
                for k in sup:
                    keep |= pos[k]
                rows = {}
                for m in masks:
                    m = full_reduce(m & keep, rows)
                    if m:
                        rows[m.bit_length()] = m
                s.push()
                for m in rows.values():
                    s.add(bit_to_z3(m) == z3.BitVecVal(0, 1))
                for k in sup:
                    s.add(leaves[k] != 0)
                self.queries += 1
                r = s.check()
                s.pop()
                if r == z3.unknown:
                    raise self._die(HarnessError("solver unknown"))
                if r == z3.sat:
                    return tuple(sup)
        finally:
            self.solver_time += time.time() - t0
        return "none"

    def _split_model(self, cond):
        """A model of the path and `cond` that changes exactly the positions of some support; None: there is none."""
        leaves, supports = self.splits
        for sup in supports:
            if time.time() > self.deadline:
                raise self._die(Budget("time budget"))
            r = self._check(z3.And(cond, *[x != 0 if k in sup else x == 0 for k, x in enumerate(leaves)]))
            if r == z3.unknown:
                raise self._die(HarnessError("solver unknown"))
            if r == z3.sat:
                return self._get_model()
        return None

    def leaf_bits(self, leaf):
        """Affine variable indices of the bits of a z3 BV constant (LSB first)."""
        k = leaf.get_id()
        got = self.leaf_ids.get(k)
        if got is None:
            got = []
            for i in range(leaf.size()):
                idx = self.nvars
                self.nvars += 1
                self.leaf_info[idx] = (leaf, i)
                got.append(1 << idx)
            got = tuple(got)
            self.leaf_ids[k] = got
            self._keep.append(leaf)
        return got

    # ------------------------------------------------------------------ solver access
    def defer(self, thunk):
        """An axiom that only matters to later questions; thunk() -> z3 condition, bool or None."""
        self.deferred.append(thunk)

    def flush(self):
        while self.nflushed < len(self.deferred):
            c = self.deferred[self.nflushed]()
            self.nflushed += 1
            if c is None or c is True:
                continue
            if c is False:
                raise self._die(Infeasible())
            c = z3.simplify(c)
            if z3.is_true(c):
                continue
            if z3.is_false(c):
                raise self._die(Infeasible())
            self.solver.add(c)
            if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
                self.model = None

    def _push(self):
        self.solver.push()
        self.flush_stack.append(self.nflushed)

    def _pop(self):
        self.solver.pop()
        self.nflushed = self.flush_stack.pop()

    def _check(self, *assumptions, flush=True):
        if flush:
            self.flush()
        if time.time() > self.deadline:
            raise self._die(Budget("time budget"))
        t = time.time()
        r = self.solver.check(*assumptions)
        self.solver_time += time.time() - t
        if SLOW and time.time() - t > SLOW:
            import traceback
            print("SLOW %.1f %s %s" % (time.time() - t, r, " < ".join("%s:%d" % (f.name, f.lineno) for f in reversed(traceback.extract_stack()[-16:-1]))), [str(a)[:200] for a in assumptions], len(self.solver.assertions()), flush=True)
        self.queries += 1
        if r == z3.unknown:
            # one retry with a fresh solver (its preprocessing is stronger)
            s = z3.Solver()
            s.set("timeout", self.solver_timeout_ms * 2)
            s.add(self.solver.assertions())
            for a in assumptions:
                s.add(a)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.sat:
                self._alt_model = s.model()
                return r
        self._alt_model = None
        return r

    def _get_model(self):
        return self._alt_model if self._alt_model is not None else self.solver.model()

    def _die(self, exc):
        self.dead = exc
        return exc

    def alive(self):
        if self.dead is not None:
            raise self.dead
        if time.time() > self.deadline:
            raise self._die(Budget("time budget"))

    def replaying(self):
        return self.pos < len(self.trail)

    # ------------------------------------------------------------------ constraints
    def add(self, cond):
        """Add a constraint that holds on this path (assumption, axiom or lemma)."""
        if self.dead is not None:
            raise self.dead
        if cond is True:
            return
        if cond is False:
            raise self._die(Infeasible())
        if self.replaying():
            return
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise self._die(Infeasible())
        self.solver.add(c)
        if self.model is not None and not z3.is_true(self.model.eval(c, model_completion=True)):
            self.model = None

    def fork(self, cond):
        """Decide a symbolic condition; explores both feasible outcomes over time."""
        if self.dead is not None:
            raise self.dead
        if cond is True or cond is False:
            return cond
        c = self.simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = False
        if z3.is_not(c):
            c = c.arg(0)
            neg = True
        k = c.get_id()
        v = self.facts.get(k)
        if v is not None:
            return v ^ neg
        v = self._decide(c, k)
        self.facts[k] = v
        self._keep.append(c)
        return v ^ neg

    def simp(self, cond):
        """Simplified condition; cached for the whole exploration so that term identities stay stable."""
        k = cond.get_id()
        got = self._simp.get(k)
        if got is None:
            got = (cond, z3.simplify(cond))
            self._simp[k] = got
        return got[1]

    def _same(self, a, b):
        """Same condition up to the order of commutative arguments?"""
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(a != b)
        return s.check() == z3.unsat

    def _decide(self, c, k):
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind in "cp" or e.key != k and not self._same(e.cond, c):
                raise self._die(HarnessError("divergence on re-execution: %.150s vs %.150s" % (e.cond, c)))
            self.pos += 1
            return e.val
        if time.time() > self.deadline:
            raise self._die(Budget("time budget"))
        self.flush()
        first = None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            first = z3.is_true(v)
            if not first and not z3.is_false(v):
                first = None
        nc = z3.Not(c)
        if first is None:
            r = self._check(c)
            if r == z3.sat:
                first = True
                self.model = self._get_model()
            elif r == z3.unsat:
                r2 = self._check(nc)
                if r2 == z3.unsat:
                    raise self._die(Infeasible())
                if r2 == z3.unknown:
                    self.note_incomplete("solver unknown at a branch")
                else:
                    self.model = self._get_model()
                self.trail.append(_Entry("f", False, c, [], k))
                self.pos += 1
                return False
            else:
                self.note_incomplete("solver unknown at a branch")
                first = True
        other = self._check(nc if first else c)
        if other == z3.unsat:
            self.trail.append(_Entry("f", first, c, [], k))
            self.pos += 1
            return first
        if other == z3.unknown:
            self.note_incomplete("solver unknown at a branch")
        self.forks += 1
        self._push()
        self.solver.add(c if first else nc)
        self.trail.append(_Entry("b", first, c, [not first], k))
        self.pos += 1
        return first

    def entails(self, cond):
        """Is cond implied by the path?  Recorded so that re-execution agrees; never splits."""
        if self.dead is not None:
            raise self.dead
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.trail):
            t = self.trail[self.pos]
            if t.kind != "p":
                raise self._die(HarnessError("divergence on re-execution at an entailment"))
            self.pos += 1
            return t.val
        v = self._check(z3.Not(c)) == z3.unsat
        self.trail.append(_Entry("p", v, None, [], None))
        self.pos += 1
        return v

    def choose(self, n, what="choice"):
        """Non-deterministic choice in range(n), all explored."""
        if self.dead is not None:
            raise self.dead
        if n <= 1:
            return 0
        if self.pos < len(self.trail):
            e = self.trail[self.pos]
            if e.kind != "c":
                raise self._die(HarnessError("divergence on re-execution at choice " + what))
            self.pos += 1
            return e.val
        self._push()
        self.forks += 1
        self.trail.append(_Entry("c", 0, None, list(range(1, n)), what))
        self.pos += 1
        return 0

    def eval_int(self, e):
        """A feasible concrete value of a BV expression on this path."""
        if not self.replaying():
            self.flush()
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise self._die(Infeasible())
            if r == z3.unknown:
                raise self._die(HarnessError("solver unknown"))
            self.model = self._get_model()
        return self.model.eval(e, model_completion=True).as_long()

    def enumerate_int(self, e, limit=400):
        """Concretise by case split over all feasible values (exhaustive up to limit)."""
        for _ in range(limit):
            v = self._enum_guess(e)
            if self.fork(e == v):
                return v
        self.note_incomplete("more than %d values of a symbolic integer" % limit)
        v = self._enum_guess(e)
        self.add(e == v)
        return v

    def pick(self, e, why="value concretised at an unmodelled call"):
        """One feasible value; the rest of the space is left out (recorded as incomplete)."""
        if self.dead is not None:
            raise self.dead
        self.note_incomplete(why)
        if self.pos < len(self.trail):
            t = self.trail[self.pos]
            if t.kind != "p":
                raise self._die(HarnessError("divergence on re-execution at a concretisation"))
            self.pos += 1
            return t.val
        v = self.eval_int(e)
        self.solver.add(e == v)
        self.trail.append(_Entry("p", v, None, [], None))
        self.pos += 1
        return v

    def _enum_guess(self, e):
        s = z3.simplify(e)
        if z3.is_bv_value(s):
            return s.as_long()
        return self.recorded(lambda: self.eval_int(e))

    def note_incomplete(self, why):
        self.incomplete[why] = self.incomplete.get(why, 0) + 1

    # ------------------------------------------------------------------ obligations
    def check(self, cond, label):
        if self.dead is not None:
            raise self.dead
        self.checks_reached[label] = self.checks_reached.get(label, 0)
        if self.replaying():
            return
        self.checks_reached[label] += 1
        if self.skip_labels and self._where(label) in self.skip_labels:
            # its counterexample could not be replayed; look for others behind it
            if cond is False:
                raise self._die(Infeasible())
            if cond is not True:
                self.solver.add(cond)
                self.model = None
            return
        self.obligations += 1
        if cond is True or cond is not False and z3.is_true(z3.simplify(cond)):
            self.obligations -= 1
            self._confirm_feasible()
            self.obligations += 1
            self.trivial += 1
            self.discharged += 1
            return
        if cond is not False:
            c = z3.simplify(cond)
        else:
            c = z3.BoolVal(False)
        self.flush()
        if self.model is not None and z3.is_false(self.model.eval(c, model_completion=True)):
            m = self.model
        else:
            r = self._check(z3.Not(c))
            if r == z3.unsat:
                self.discharged += 1
                self.solver.add(c)
                return
            if r == z3.unknown:
                raise self._die(HarnessError("solver unknown on obligation " + label))
            m = self._get_model()
        if self.splits is not None:
            m = self._split_model(z3.Not(c))
            if m is None:
                self.discharged += 1
                self.solver.add(c)
                return
        v = Violation(label, self.concretise_inputs(m))
        v.refuted = z3.Not(c)
        v.where = self._where(label)
        raise self._die(v)

    def _where(self, label):
        return (label, tuple(e.val for e in self.trail[:self.pos] if e.kind == "c"))

    def variants(self, v, count, seed=1):
        """Further counterexamples to the obligation just refuted, with inputs chosen at random where possible.

        The values of ideal functions in a counterexample are the solver's; the real functions compute
        others, so a defect that shows only for some of their values needs several attempts."""
        rnd = random.Random(seed)
        for _ in range(count):
            self.solver.push()
            try:
                self.solver.add(v.refuted)
                self.solver.set("timeout", 3000)
                groups = list(self.input_leaves)
                rnd.shuffle(groups)
                m = None
                for g in groups[:24]:
                    for piece in [g] + [[x] for x in (g[:8] if len(g) > 1 else [])]:
                        eqs = [x == rnd.getrandbits(x.size()) for x in piece]
                        self.solver.push()
                        self.solver.add(*eqs)
                        self.queries += 1
                        if self.solver.check() == z3.sat:
                            m = self.solver.model()
                            self.solver.pop()
                            self.solver.add(*eqs)
                            if piece is g:
                                break
                        else:
                            self.solver.pop()
                if m is not None:
                    yield self.concretise_inputs(m)
            finally:
                self.solver.set("timeout", self.solver_timeout_ms)
                self.solver.pop()

    def _confirm_feasible(self):
        """Counts an obligation as reached only on a feasible path."""
        if self.model is None:
            r = self._check(flush=False)
            if r == z3.unsat:
                raise self._die(Infeasible())
            if r == z3.sat:
                self.model = self._get_model()

    def concretise_inputs(self, m):
        out = {}
        for name, (kind, payload) in self.inputs.items():
            out[name] = payload(m)
        return out

    # ------------------------------------------------------------------ exploration
    def explore(self, fn):
        """Run fn once per path.  Returns a Violation or None."""
        global ENGINE
        ENGINE = self
        violation = None
        gc.disable()
        try:
            while True:
                self._reset_path()
                self.path_id += 1
                self.running = True
                end = None
                try:
                    fn()
                except Control as e:
                    end = e
                finally:
                    self.running = False
                if self.dead is not None and not isinstance(end, Control):
                    end = self.dead
                if end is None and self.pos < len(self.trail):
                    end = HarnessError("path shorter on re-execution")
                if end is None:
                    # completed path: make sure it is feasible before counting it
                    try:
                        self._confirm_feasible()
                        self.paths += 1
                        if len(self.path_inputs) < self.witness_limit and self.model is not None:
                            self.path_inputs.append(self.concretise_inputs(self.model))
                    except Infeasible:
                        self.infeasible_paths += 1
                    except Budget as e:
                        end = e
                elif isinstance(end, Infeasible):
                    self.infeasible_paths += 1
                if isinstance(end, Violation):
                    self.paths += 1
                    violation = end
                    break
                if isinstance(end, HarnessError):
                    raise end
                if isinstance(end, Budget):
                    self.note_incomplete("exploration budget: " + str(end))
                    break
                end = None
                if self.paths + self.infeasible_paths >= self.max_paths:
                    self.note_incomplete("path limit %d" % self.max_paths)
                    break
                if self.path_id % 32 == 0:
                    gc.collect()
                if not self._backtrack():
                    break
        finally:
            ENGINE = None
            self.running = False
            gc.enable()
        return violation

    def _backtrack(self):
        while self.trail:
            e = self.trail[-1]
            if e.kind in "fp":
                self.trail.pop()
                continue
            self._pop()
            if e.alts:
                e.val = e.alts.pop(0)
                self._push()
                if e.kind == "b":
                    self.solver.add(e.cond if e.val else z3.Not(e.cond))
                return True
            self.trail.pop()
        return False
