"""Contracts on concrete data: replay a counterexample on the real function."""
import json
import os
import subprocess
import tempfile
import time
import z3

from .values import *
from . import values as V
from .engine import Engine

REAL = os.environ.get("VERIF_REAL_PYTHON", "/opt/venv/bin/python")
HERE = os.path.dirname(os.path.abspath(__file__))


def const_array(data, shape, dtype):
    import itertools

    def flat(k):
        x = data
        for i in k:
            x = x[i]
        return x

    def get(*k):
        kk = []
        for i in k:
            i = ex(i)
            if isinstance(i, z3.ExprRef):
                i = z3.simplify(i)
                if not z3.is_int_value(i):
                    raise Unsupported("not ground")
                i = i.as_long()
            kk.append(int(i))
        if all(0 <= i < n for i, n in zip(kk, shape)):
            v = flat(kk)
            return z3.BoolVal(bool(v)) if dtype == "b" else z3.IntVal(int(v))
        return z3.BoolVal(False) if dtype == "b" else z3.IntVal(0)
    return A(shape, get, dtype)


def fresh_view(contract, prog, contracts):
    eng = Engine(prog, contracts, [], 10)
    eng.cur = contract["name"]
    eng.top_name = contract["name"]
    st = State()
    vals = contract["make"](eng, st)
    return eng, vals


def num(m, t):
    t = ex(t)
    if isinstance(t, (bool, int)):
        return t
    v = m.eval(t, model_completion=True)
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    return z3.is_true(v)


def expand(t, lo, hi, memo=None):
    """replace quantifiers by their instances over lo..hi (an approximation: what
    it finds is only believed after replay on the real code)"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_quantifier(t):
        n = t.num_vars()
        if (hi - lo + 1) ** n > 400:
            hi2 = lo + max(1, int(400 ** (1.0 / n)) - 1)
        else:
            hi2 = hi
        import itertools
        inst = [expand(z3.substitute_vars(t.body(), *[z3.IntVal(x) for x in reversed(c)]), lo, hi, memo)
                for c in itertools.product(range(lo, hi2 + 1), repeat=n)]
        r = z3.And(*inst) if t.is_forall() else z3.Or(*inst)
    elif z3.is_app(t) and t.num_args():
        ch = [expand(c, lo, hi, memo) for c in t.children()]
        r = t.decl()(*ch) if not (z3.is_and(t) or z3.is_or(t)) else (z3.And(*ch) if z3.is_and(t) else z3.Or(*ch))
    else:
        r = t
    memo[k] = (t, r)
    return r


def small_models(ob, vals, deadline):
    """candidate counterexamples with small dimensions and entries, as JSON arguments"""
    for md, mv in ((2, 2), (3, 3)):
        if time.time() > deadline:
            return
        top = md + 4
        s = z3.Solver()
        s.set("timeout", int(max(500, min(6000, (deadline - time.time()) * 1000))))
        try:
            memo = {}
            for p in ob.pc:
                s.add(expand(p, -1, top, memo))
            s.add(z3.Not(expand(V.zb(ob.goal), -1, top, memo)))
        except (z3.Z3Exception, RecursionError):
            return
        for nm, v in vals.items():
            if isinstance(v, A):
                for d in v.shape:
                    s.add(V.zi(d) <= md + (3 if v.ndim == 2 else 0))
                if v.dtype != "b":
                    import itertools
                    for k in itertools.product(range(top), repeat=v.ndim):
                        x = V.zi(v.get(*[z3.IntVal(i) for i in k]))
                        s.add(x >= 0, x <= mv)
            elif is_sym(v) and not is_boolish(v):
                s.add(V.zi(v) <= mv, V.zi(v) >= -1)
        for _ in range(3):
            if time.time() > deadline or s.check() != z3.sat:
                break
            m = s.model()
            out, block = {}, []
            for nm, v in vals.items():
                if isinstance(v, A):
                    shp = [num(m, d) for d in v.shape]
                    if any(d < 0 or d > 12 for d in shp):
                        return

                    def build(k):
                        if len(k) == len(shp):
                            t = v.get(*[z3.IntVal(i) for i in k])
                            if isinstance(t, z3.ExprRef):
                                block.append(t != m.eval(t, model_completion=True))
                            return num(m, t)
                        return [build(k + [i]) for i in range(shp[len(k)])]
                    for d in v.shape:
                        if isinstance(d, z3.ExprRef):
                            block.append(d != m.eval(d, model_completion=True))
                    out[nm] = dict(array=build([]), shape=shp, dtype=v.dtype)
                elif is_sym(v) or isinstance(v, (int, bool)):
                    out[nm] = num(m, v)
                else:
                    return
            yield out
            if not block:
                break
            s.add(z3.Or(*block))


def view_of(args):
    view = {}
    for nm, v in args.items():
        if isinstance(v, dict):
            view[nm] = const_array(v["array"], v["shape"], v["dtype"])
        else:
            view[nm] = v
    return view


def call_real(repo, contract, args, jit=True):
    """run the real function; {'result': ...} or {'error': ...}"""
    job = dict(repo=repo, module=contract["module"], name=contract["name"],
               args=[v for k, v in args.items() if not k.startswith("_")])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("NUMBA_CACHE_DIR", tempfile.gettempdir() + "/nbc_replay")
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    try:
        p = subprocess.run([REAL, os.path.join(HERE, "callfn.py")], input=json.dumps(job), capture_output=True, text=True, timeout=120, env=env)
        return json.loads(p.stdout.strip().splitlines()[-1])
    except subprocess.TimeoutExpired:
        return dict(timeout=True)
    except Exception as e:
        return dict(harness=f"{type(e).__name__}: {e}")


def result_of(r):
    if isinstance(r, dict) and "array" in r:
        return const_array(r["array"], r["shape"], r["dtype"])
    return r


def judge(contract, args, answer):
    """None if the contract holds for this call, else what is violated; raises
    Unsupported if it cannot be evaluated"""
    view = view_of(args)
    dims = [d for v in view.values() if isinstance(v, A) for d in v.shape]
    big = [x for v in args.values() if not isinstance(v, dict) and isinstance(v, int) for x in [v]]
    V.CONCRETE = max(dims + big + [1]) + 2
    try:
        for nm, g in contract["requires"](None, view):
            if not truth(g):
                raise Unsupported(f"precondition {nm} does not hold")
        if "error" in answer:
            return f"the call raises {answer['error']}"
        if "timeout" in answer:
            return "the call does not return"
        if "result" not in answer:
            raise Unsupported(str(answer))
        r = result_of(answer["result"])
        if isinstance(r, A):
            V.CONCRETE = max([V.CONCRETE] + [d + 1 for d in r.shape])
        if answer.get("modified"):
            return "an argument is modified"
        for nm, g in contract["ensures"](None, view, r):
            if not truth(g):
                return nm
        return None
    finally:
        V.CONCRETE = None


def truth(g):
    g = to_bool(g)
    if isinstance(g, bool):
        return g
    g = z3.simplify(g)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    raise Unsupported("not ground")


def replay(repo, prog, contract, contracts, ob, wall=15):
    """(violated clause, arguments, answer) for an unproved obligation, or None"""
    vals = ob.vals
    if vals is None:
        return None
    deadline = time.time() + wall
    try:
        for args in small_models(ob, vals, deadline):
            for jit in ((True, False) if ob.name.startswith("index") else (True,)):
                ans = call_real(repo, contract, args, jit)
                if "error" in ans and not (not jit and ans["error"].startswith("IndexError")):
                    continue
                try:
                    bad = judge(contract, args, ans)
                except (Unsupported, z3.Z3Exception, TypeError, AttributeError):
                    continue
                if bad:
                    return bad, args, ans
    except (Unsupported, z3.Z3Exception, TypeError, AttributeError):
        return None
    return None
