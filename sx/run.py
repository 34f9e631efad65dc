"""Check driver:  python -m sx.run PROPERTY  (VERIF_TIER=quick|thorough)

Explores every case of checks/<PROPERTY>.py symbolically (one worker process per case), replays the
solver's counterexamples and a few path witnesses against the real code, and writes the evidence file.

exit 0: held on everything explored (what was left undecided is printed and recorded in the evidence);
exit 1: VIOLATION confirmed on the real code; exit 2: no verdict (vacuous, or most cases undecided).
"""
import collections
import importlib
import itertools
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
NATIVE_PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("SX_WORKERS", "8"))
DEBUG = bool(os.environ.get("SX_DEBUG"))


def setup_path():
    for p in (HERE, SITE, os.path.join(REPO, "src")):
        if p not in sys.path:
            sys.path.append(p)


def native_replay(prop, jobs, timeout=300):
    """Run harness jobs on the real code; returns one result per job."""
    if not jobs:
        return []
    fd, path = tempfile.mkstemp(prefix="sxjobs.", suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(jobs, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["SX_REPO"] = REPO
        tmp = tempfile.mkdtemp(prefix="sxhome.")
        env["HOME"] = tmp
        try:
            p = subprocess.run([NATIVE_PY, os.path.join(HERE, "sx", "native.py"), "checks." + prop, path],
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=tmp,
                               stdin=subprocess.DEVNULL)
            lines = p.stdout.decode("utf-8", "replace").splitlines()
            err = p.stderr.decode("utf-8", "replace")[-2000:]
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b"").decode("utf-8", "replace").splitlines()
            err = "timeout"
        finally:
            import shutil
            shutil.rmtree(tmp, ignore_errors=True)
    finally:
        os.unlink(path)
    out = []
    for i in range(len(jobs)):
        try:
            out.append(json.loads(lines[i]))
        except (IndexError, ValueError):
            out.append({"status": "error", "detail": err})
    return out


def randomised(values, kinds, seed):
    """The counterexample with every input byte string drawn anew: the solver chooses the values of the
    ideal functions, the real functions get theirs from their arguments."""
    rnd = random.Random(seed)
    return {"_rotate": seed % 6} | {k: rnd.randbytes(len(x) // 2).hex() if kinds.get(k) == "bytes" and isinstance(x, str) else x
            for k, x in values.items()}


def worker(prop, c, tier, conn, budget):
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    res = {}

    def go():
        try:
            res.update(run_case(prop, c, tier, budget))
        except MemoryError:
            res.update({"case": c.name, "error": "out of memory"})
        except BaseException:
            res.update({"case": c.name, "error": traceback.format_exc()[-3000:]})
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        conn.send(res)
    except Exception:
        conn.send({"case": c.name, "error": traceback.format_exc()[-2000:]})
    conn.close()
    os._exit(0)


def run_case(prop, c, tier, budget):
    setup_path()
    from . import engine, rt, xform
    from .models import all as _models  # noqa: F401
    from .symenv import EnvH
    import z3
    z3.set_param("smt.random_seed", int(os.environ.get("VERIF_SEED", "1") or 1) & 0xFFFF)
    o = c.opts
    t0 = time.time()
    E = engine.Engine(timeout_s=min(o["timeout"] or 1e9, budget), solver_timeout_ms=o["solver_ms"] or 30000,
                      max_paths=o["max_paths"] or 200000)
    E.witness_limit = o["witnesses"] if o["witnesses"] is not None else 4
    spurious = []
    tries = 3
    detail = {}

    def path():
        w = xform.World({"age": os.path.join(REPO, "src"), "checks": HERE}, rt)
        h = EnvH(E, w, tier)
        home = os.environ.get("HOME")
        cwd = os.getcwd()
        try:
            m = w.load("checks." + prop)
            h.start()
            getattr(m, c.fn)(h, **c.params)
            h.finish()
        except Exception as e:
            if E.dead is not None:
                raise E.dead
            detail["exc"] = "%s: %s" % (type(e).__name__, e)
            detail["trace"] = traceback.format_exc()[-2500:]
            E.check(False, "unexpected exception")
        finally:
            os.chdir(cwd)
            if home is not None:
                os.environ["HOME"] = home
            h.cleanup()

    violation = None
    inconclusive = None
    replays = 0
    while True:
        try:
            v = E.explore(path)
        except engine.HarnessError as e:
            inconclusive = "machinery: %s" % e
            break
        if v is None:
            break
        found = None
        first = None
        todo = [v.inputs]
        more = E.variants(v, 16)
        kinds = {k: kind for k, (kind, _) in E.inputs.items()}
        # an event of the ideal functions may need one byte of a digest to have a certain value
        reroll = [range(1344, 2368), range(320, 1344), range(64, 320), range(64)]
        rolled = time.time()
        while todo:
            jobs = [{"fn": c.fn, "params": c.params, "values": x, "tier": tier} for x in todo]
            rs = native_replay(prop, jobs)
            replays += len(rs)
            first = first or rs[0]
            for j, r in zip(jobs, rs):
                if r["status"] == "failed":
                    found = (j, r)
                    break
            if found or v.refuted is None:
                break
            todo = list(itertools.islice(more, 8))
            if not todo and reroll and time.time() < rolled + 10:
                todo = [randomised(v.inputs, kinds, i) for i in reroll.pop()]
        if found:
            violation = {"label": v.label, "values": found[0]["values"], "native": found[1], "detail": dict(detail)}
            break
        spurious.append({"label": v.label, "values": v.inputs, "native": first, "detail": dict(detail)})
        inconclusive = "counterexample to %r was not reproduced by the real code (%s)" % (v.label, first["status"])
        if len(spurious) >= 8 or v.where in E.skip_labels or time.time() > E.deadline - 30:
            break
        E.skip_labels.add(v.where)
        E.deadline = min(E.deadline, time.time() + 60)
    # witnesses: the real code on inputs the solver found for completed paths
    wit = []
    if violation is None and E.path_inputs:
        kinds = {k: kind for k, (kind, _) in E.inputs.items()}
        jobs = [{"fn": c.fn, "params": c.params, "values": x, "tier": tier} for x in E.path_inputs]
        rs = native_replay(prop, jobs)
        replays += len(rs)
        for j, r in zip(jobs, rs):
            wit.append(r["status"])
            if r["status"] == "failed" and r.get("leak"):
                # the solver's values resemble each other: a leak shows for random values as well
                again = native_replay(prop, [dict(j, values=randomised(j["values"], kinds, i)) for i in range(8)])
                replays += len(again)
                if sum(x["status"] == "failed" for x in again) < 5:
                    wit[-1] = "ok"
                    continue
            if r["status"] == "failed":
                violation = {"label": r["label"], "values": j["values"], "native": r, "detail": {},
                             "by": "replay of a path witness"}
                break
            if r["status"] == "error":
                inconclusive = "native replay failed: " + str(r.get("detail"))[-500:]
    return {
        "case": c.name, "paths": E.paths, "infeasible": E.infeasible_paths, "forks": E.forks,
        "queries": E.queries, "solver_s": round(E.solver_time, 3), "obligations": E.obligations,
        "discharged": E.discharged, "trivial": E.trivial, "checks": E.checks_reached,
        "incomplete": E.incomplete, "functions": sorted(E.functions), "stubs": sorted(E.stubs),
        "bounds": sorted(set(E.bounds)), "assumptions": sorted(E.assumptions), "wall_s": round(time.time() - t0, 2),
        "replays": replays, "witness_status": dict(collections.Counter(wit)),
        "sample": E.path_inputs[:1], "violation": violation, "inconclusive": inconclusive, "spurious": spurious[:2],
        "params": c.params, "fn": c.fn,
    }


def main(argv):
    prop = argv[1]
    only = argv[2] if len(argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, HERE)
    mod = importlib.import_module("checks." + prop)
    cases = mod.cases(tier)
    if only:
        cases = [c for c in cases if only in c.name]
    cases.sort(key=lambda c: -c.opts["weight"])
    t0 = time.time()
    total = float(os.environ.get("SX_BUDGET", "800" if tier == "quick" else "5400"))
    deadline = t0 + total
    ctx = mp.get_context("fork")
    queue = list(cases)
    running = []
    results = []
    stop = False
    while queue or running:
        while queue and len(running) < WORKERS and not stop:
            c = queue.pop(0)
            r, s = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(prop, c, tier, s, max(5.0, deadline - time.time())))
            p.start()
            s.close()
            running.append((c, p, r))
        if stop:
            queue = []
        mp.connection.wait([r for _, _, r in running], timeout=1.0)
        for item in list(running):
            c, p, r = item
            if r.poll():
                try:
                    res = r.recv()
                except EOFError:
                    res = {"case": c.name, "error": "worker ended without a result"}
            elif not p.is_alive():
                res = {"case": c.name, "error": "worker died (exit %s)" % p.exitcode}
            elif time.time() > deadline + 60:
                p.kill()
                res = {"case": c.name, "error": "time limit"}
            else:
                continue
            running.remove(item)
            p.join()
            results.append(res)
            if DEBUG:
                show(res)
            if res.get("violation"):
                stop = True
        if stop and running:
            for c, p, r in running:
                p.kill()
                p.join()
            running = []
    return report(prop, mod, tier, seed, cases, results, time.time() - t0, only)


def show(r):
    if "error" in r:
        print("  %-40s ERROR %s" % (r["case"], r["error"][-1200:]))
        return
    print("  %-40s paths=%d forks=%d q=%d solver=%.1fs obl=%d/%d wall=%.1fs wit=%s %s%s%s" % (
        r["case"], r["paths"], r["forks"], r["queries"], r["solver_s"], r["discharged"], r["obligations"],
        r["wall_s"], r["witness_status"], "VIOLATION " + json.dumps(r["violation"])[:1500] if r["violation"] else "",
        " INCONCLUSIVE " + r["inconclusive"][:300] + json.dumps(r["spurious"])[:1500] if r["inconclusive"] else "",
        " incomplete=%s" % r["incomplete"] if r["incomplete"] else ""))
    sys.stdout.flush()


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f)["findings"]:
                if e["property"] == prop:
                    out.append(e)
    return out


def report(prop, mod, tier, seed, cases, results, wall, only):
    ok = [r for r in results if "error" not in r]
    errors = [r for r in results if "error" in r]
    viol = [r for r in ok if r["violation"]]
    incon = [r for r in ok if r["inconclusive"] and not r["violation"]]
    vac = []
    for r in ok:
        if not r["violation"] and not r["inconclusive"] and r["obligations"] == 0 and not r.get("allow_vacuous"):
            vac.append(r["case"])
    expected = getattr(mod, "EXPECT_LABELS", None)
    labels = collections.Counter()
    for r in ok:
        labels.update(r["checks"])
    missing = []
    if expected and not viol and not only:
        missing = [x for x in expected if not labels.get(x)]

    def tot(k):
        return sum(r[k] for r in ok)
    functions = sorted({f for r in ok for f in r["functions"] if f.startswith("age")})
    incomplete = collections.Counter()
    for r in ok:
        incomplete.update(r["incomplete"])
    samples = [{"case": r["case"], "input": r["sample"][0]} for r in ok if r["sample"]][:12]
    samples = [trim(s) for s in samples]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("forks"),
            "traces_validated_against_impl": tot("replays"),
            "samples": samples or [{"case": r["case"], "input": {}} for r in ok[:3]],
            "exhaustive": not incomplete and not incon and not errors,
            "functions_encoded": functions,
            "cases": [{"case": r["case"], "paths": r["paths"], "obligations": r["obligations"],
                       "discharged": r["discharged"], "queries": r["queries"], "solver_s": r["solver_s"],
                       "wall_s": r["wall_s"], "replays": r["witness_status"]} for r in ok],
            "queries": tot("queries"), "solver_s": round(sum(r["solver_s"] for r in ok), 2),
            "obligations": tot("obligations"), "discharged": tot("discharged"),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}),
            "outside_bounds": getattr(mod, "OUTSIDE", []),
            "checks_reached": dict(labels),
            "incomplete": dict(incomplete),
            "inconclusive": [{"case": r["case"], "why": r["inconclusive"]} for r in incon],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + sorted({a for r in ok for a in r["assumptions"]}),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    known = load_known(prop)
    code = 0
    for r in viol:
        v = r["violation"]
        k = match_known(known, r, v)
        if k is not None:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            continue
        path = os.path.join(HERE, "evidence", "replays", "%s-%s.json" % (prop, r["fn"]))
        with open(path, "w") as f:
            json.dump({"property": prop, "case": r["case"], "fn": r["fn"], "params": r["params"], "tier": tier,
                       "label": v["label"], "values": v["values"], "native": v["native"],
                       "symbolic_detail": v.get("detail"),
                       "rerun": "python3-vt -m sx.replay " + path}, f, indent=1, default=str)
            f.write("\n")
        print("case %s: %s; %s" % (r["case"], v["label"], v["native"].get("detail") or v["native"].get("label")))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    for r in incon:
        print("INCONCLUSIVE case %s: %s" % (r["case"], r["inconclusive"][:500]))
    for r in errors:
        print("ERROR case %s: %s" % (r["case"], r["error"][-1200:]))
    if vac:
        print("VACUOUS: no obligation reached in " + ", ".join(vac))
    if missing:
        print("VACUOUS: never reached: " + ", ".join(missing))
    print("%s %s: %d cases, %d paths, %d forks, %d obligations (%d discharged), %d queries, %.1f s solver, "
          "%d native replays, %.1f s" % (prop, tier, len(ok), tot("paths"), tot("forks"), tot("obligations"),
                                         tot("discharged"), tot("queries"), ev["coverage"]["solver_s"],
                                         tot("replays"), wall))
    if incomplete:
        print("incomplete: " + "; ".join("%s (%d)" % kv for kv in sorted(incomplete.items())))
    decided = [r for r in ok if r not in incon]
    if code == 0 and (vac or missing and len(decided) == len(cases) or 2 * len(decided) < len(cases)):
        code = 2      # no verdict
    return code


def trim(s):
    return {"case": s["case"], "input": {k: (v if not isinstance(v, str) or len(v) < 200 else v[:200] + "...")
                                         for k, v in list(s["input"].items())[:20]}}


def match_known(known, r, v):
    for k in known:
        if k.get("fn") == r["fn"] and k.get("label") == v["label"] and \
                all(v["values"].get(n) == x for n, x in k.get("values", {}).items()) and \
                all(r["params"].get(n) == x for n, x in k.get("params", {}).items()):
            return k
    return None


if __name__ == "__main__":
    code = main(sys.argv)
    sys.stdout.flush()
    os._exit(code)
