"""Run-time evaluation of contracts on the real code (the bounded stand-in).

A property module defines
    GROUPS = {"group": (generator, runner), ...}
where generator(rng, tier) yields JSON-serialisable parameters and
runner(params) evaluates the contract on the real functions, raising
`Broken(message)` when it is violated.  A case is replayed from its parameters
alone.  Exceptions that pass through /repo's code are violations (no contract
here permits them, unless the runner expects them); exceptions of the harness
itself (a function it calls is gone) make the case `skipped`.
"""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)


def setup():
    scratch = os.environ.get("VERIF_SCRATCH", "/tmp")
    os.environ.setdefault("NUMBA_CACHE_DIR", os.path.join(scratch, "numba"))
    import warnings
    warnings.filterwarnings("ignore")
    # collecting garbage after every call has no effect but takes most of the time
    import gc
    gc.collect = lambda *a, **k: 0


setup()
import hashlib
import json
import random
import signal
import time
import traceback


class Broken(BaseException):  # not for the library's own except clauses
    """the contract does not hold for this case"""


class Skip(BaseException):
    """the case is outside the contract's precondition"""


class CaseTimeout(BaseException):
    pass


def need(cond, msg, **info):
    if not cond:
        raise Broken(msg + (": " + ", ".join(f"{k}={short(v)}" for k, v in info.items()) if info else ""))


def short(v, n=300):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            v = v.tolist()
    except Exception:
        pass
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def from_repo(tb):
    """(passes through the repository's code, file:line of its last frame there)"""
    where = None
    for fr in traceback.extract_tb(tb):
        f = os.path.abspath(fr.filename)
        if f.startswith(os.path.join(REPO, "inflation")):
            where = f"{os.path.relpath(f, REPO)}:{fr.lineno} in {fr.name}"
    return where


def innermost_ours(tb):
    """the exception was raised by an attribute access / call in the harness itself"""
    fr = traceback.extract_tb(tb)
    return bool(fr) and "/rt/" in os.path.abspath(fr[-1].filename)


def run_case(runner, params, limit):
    """('ok'|'broken'|'skip'|'timeout', message)"""
    def onalarm(sig, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        r = runner(params)
        return "ok", r
    except Skip as e:
        return "skip", str(e)
    except Broken as e:
        return "broken", str(e)
    except CaseTimeout:
        return "timeout", f"no answer within {limit} s"
    except MemoryError:
        return "skip", "memory"
    except (ImportError, ModuleNotFoundError) as e:
        return "skip", f"harness: {e}"
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        where = from_repo(e.__traceback__)
        if where is None or innermost_ours(e.__traceback__):
            return "skip", f"harness: {type(e).__name__}: {e} " + " | ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-3:])
        return "broken", f"unexpected {type(e).__name__}: {short(str(e))} raised at {where}"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def digest(group, params):
    return hashlib.sha256((group + json.dumps(params, sort_keys=True)).encode()).hexdigest()[:16]


def worker(mod, shard, nshards, seed, tier, budget, out, limit):
    """round-robin over the groups until the budget is used up"""
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, groups={}, samples=[], broken=[], skipped=[], trivial=0, timeouts=[], exhausted={})
    gens = {}
    only = os.environ.get("VERIF_GROUPS")
    for g, (gen, run) in mod.GROUPS.items():
        if only and g not in only.split(","):
            continue
        rng = random.Random(f"{seed}/{mod.__name__}/{g}")
        gens[g] = (iter(gen(rng, tier)), run)
    count = {g: 0 for g in gens}
    spent = {g: 0.0 for g in gens}
    seen = set()
    alive = list(gens)
    hb = out + ".cur"
    warm = getattr(mod, "warmup", None)
    if warm:
        try:
            warm()
        except Exception:
            pass
    t1 = time.time()
    weights = getattr(mod, "WEIGHTS", {})
    while alive and time.time() - t1 < budget and not (len(res["broken"]) >= 3):
        # the group that has used least of its share of time goes next
        g = min(alive, key=lambda x: spent[x] / weights.get(x, 1.0))
        it, run = gens[g]
        ts = time.time()
        try:
            p = next(it)
            while True:
                k = count[g]
                count[g] += 1
                if k % nshards == shard:
                    break
                p = next(it)
        except StopIteration:
            alive.remove(g)
            res["exhausted"][g] = True
            continue
        d = digest(g, p)
        if d in seen:
            spent[g] += time.time() - ts + 1e-4
            continue
        seen.add(d)
        with open(hb, "w") as f:
            json.dump(dict(group=g, params=p), f)
        st, msg = run_case(run, p, limit)
        spent[g] += time.time() - ts + 1e-4
        gr = res["groups"].setdefault(g, dict(ok=0, skip=0, broken=0, timeout=0))
        gr[st] += 1
        if st == "skip":
            if len(res["skipped"]) < 20:
                res["skipped"].append([g, msg])
            continue
        if st == "timeout":
            res["timeouts"].append(dict(group=g, params=p, message=msg))
            if len(res["timeouts"]) > 2:
                break
            continue
        res["evaluations"] += 1
        if msg == "trivial":
            res["trivial"] += 1
        else:
            res["distinct"] += 1
        if st == "broken":
            res["broken"].append(dict(group=g, params=p, message=msg))
            if gr["broken"] >= 2:
                alive.remove(g) if g in alive else None
        elif len([s for s in res["samples"] if s["group"] == g]) < 1:
            res["samples"].append(dict(group=g, params=p))
    res["wall_s"] = time.time() - t0
    try:
        os.unlink(hb)
    except OSError:
        pass
    with open(out, "w") as f:
        json.dump(res, f)


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--limit", type=float, default=60)
    ap.add_argument("--out", default="/dev/stdout")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import numpy
    numpy.seterr(all="ignore")
    mod = importlib.import_module(f"rt.{a.module}")
    if a.replay:
        rp = json.load(open(a.replay))
        gen, run = mod.GROUPS[rp["group"]]
        st, msg = run_case(run, rp["params"], a.limit * 4)
        print(json.dumps(dict(status=st, message=msg if st != "ok" else "")))
        return 1 if st in ("broken", "timeout") else 0
    worker(mod, a.shard, a.nshards, a.seed, a.tier, a.budget, a.out, a.limit)
    return 0
