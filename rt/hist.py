"""Sequences of settings on a relaxation, and the settings they leave (shared by C11 and C12)."""
from .base import *
from . import scen, prog
import copy
import warnings
import numpy as np


def fresh_state():
    return dict(values=None, eq=None, ineq=None, obj=None, lo=None, up=None)


def num(rng):
    return rng.choice([1, -1, 2, -2, 0.5, -0.5, 3, 0.25])


def gen_ops(rng, n, kind, supports):
    """a list of [operation, seed] pairs; what they do is worked out on the relaxation"""
    pool = ["values", "values", "dist", "dist", "none", "obj", "obj", "objnone", "up", "lo", "upnone", "lonone", "eq", "ineq", "eqnone",
            "reset", "reset", "resetlist", "lookup", "read", "solve", "solve", "again", "update", "revise", "revise"]
    if supports:
        pool = [o for o in pool if not o.startswith("obj")]
    if rng.random() < .4:
        # few kinds, set again and again
        pool = rng.sample(pool, 2) + [rng.choice(["eq", "ineq", "obj" if "obj" in pool else "up", "lo"]), "revise", "revise", "solve"]
        n += 2
    return [[rng.choice(pool), rng.randrange(10**6)] for _ in range(n)]


class Driver:
    """applies an operation to a relaxation and to the settings"""

    def __init__(self, P, names, atoms, sanitise, marg, supports, nonneg):
        self.P, self.names, self.atoms, self.marg = P, names, atoms, marg
        self.supports = supports
        self.nonneg = nonneg  # moments that may be given values
        self.st = fresh_state()
        self.last = None

    def consistent(self, values, lo, up):
        for k, b in (lo or {}).items():
            if k in values and values[k] < b - 1e-12:
                return False
        for k, b in (up or {}).items():
            if k in values and values[k] > b + 1e-12:
                return False
        return True

    def call(self, s, meth, *a, bufs=None, **kw):
        """call with copies kept, so that a change to the caller's arguments shows; bufs: objects the caller keeps
        and modifies in place between calls"""
        b = [copy.deepcopy(x) if not hasattr(x, "copy") or isinstance(x, (dict, list)) else x.copy() for x in a]
        if isinstance(bufs, dict):
            b = [in_place(bufs, (meth.split("_", 1)[-1], i), x) for i, x in enumerate(b)]
        before = [repr(x) if not isinstance(x, np.ndarray) else x.copy() for x in b]
        with prog.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            getattr(s, meth)(*b, **kw)
        for x, y in zip(b, before):
            ok = np.array_equal(x, y) if isinstance(x, np.ndarray) else repr(x) == y
            need(ok, f"{meth} leaves its arguments as they were", before=y, after=x)
        if bufs == "poison":
            for x in b:
                if isinstance(x, (dict, list)):
                    x.clear()
                elif isinstance(x, np.ndarray):
                    x[...] = 0.125


def in_place(bufs, key, x):
    """the object of an earlier call, modified to be equal to x"""
    key = (*key, type(x), getattr(x, "shape", None))
    o = bufs.get(key)
    if o is None or x is None or not isinstance(x, (dict, list, np.ndarray)):
        bufs[key] = x
        return x
    if isinstance(x, dict):
        o.clear()
        o.update(x)
    elif isinstance(x, list):
        o[:] = x
    else:
        o[...] = x
    return o


def apply_values(s, v):
    """v: ['values', dict, kw] or ['dist', array, kw] or None"""
    d = Driver.call
    if v is None:
        d(None, s, "set_values", None)
    elif v[0] == "dist":
        d(None, s, "set_distribution", np.array(v[1]), **v[2])
    else:
        d(None, s, "set_values", dict(v[1]), **v[2])


def apply_state(s, st):
    """a fresh relaxation given only the last setting of each kind"""
    d = Driver.call
    if st["obj"] is not None:
        d(None, s, "set_objective", dict(st["obj"][0]), st["obj"][1])
    if st["values"] is not None:
        apply_values(s, st["values"])
    if st["lo"] is not None:
        d(None, s, "set_bounds", dict(st["lo"]), "lo")
    if st["up"] is not None:
        d(None, s, "set_bounds", dict(st["up"]), "up")
    if st["eq"]:
        d(None, s, "set_extra_equalities", [dict(x) for x in st["eq"]])
    if st["ineq"]:
        d(None, s, "set_extra_inequalities", [dict(x) for x in st["ineq"]])


def make(rng, op, st, ctx):
    """what an operation is, given the scenario: [method, args, kwargs] or a pseudo operation; and the settings after it"""
    st = dict(st)
    names, values_of = ctx["names"], ctx["values_of"]
    pick = lambda k: rng.sample(names, min(len(names), k))
    if op == "again":
        return ("again",), st
    if op == "revise":
        # the same moments again, with other numbers
        kinds = [k for k in ("eq", "ineq", "obj", "lo", "up") if st[k]]
        if not kinds:
            return ("nothing",), st
        k = rng.choice(kinds)
        if k in ("eq", "ineq"):
            st[k] = [{m: num(rng) for m in d} for d in st[k]]
            return ("call", "set_extra_equalities" if k == "eq" else "set_extra_inequalities", [[dict(d) for d in st[k]]], {}), st
        if k == "obj":
            st[k] = [{m: num(rng) for m in st[k][0]}, st[k][1]]
            return ("call", "set_objective", [dict(st[k][0]), st[k][1]], {}), st
        st[k] = {m: (rng.choice([1, 1.5, 2]) if k == "up" else rng.choice([0, -0.5, -1])) for m in st[k]}
        return ("call", "set_bounds", [dict(st[k]), k], {}), st
    if op in ("values", "update"):
        v = values_of(rng)
        kw = dict(use_lpi_constraints=rng.random() < .4, only_specified_values=rng.random() < .2)
        if op == "update":
            old = st["values"]
            if old is None:
                old = ["values", {}, kw]
            if old[0] == "dist" or not v:
                return ("nothing",), st
            kw = old[2]
            st["values"] = ["values", dict(old[1], **v), kw]
            return ("call", "update_values", [v], kw), st
        st["values"] = ["values", v, kw] if v else None
        st["eq"] = st["ineq"] = None
        return ("call", "set_values", [v], kw), st
    if op == "dist":
        p = ctx["dist_of"](rng)
        kw = dict(use_lpi_constraints=rng.random() < .4, shared_randomness=rng.random() < .2)
        st["values"] = ["dist", p.tolist(), kw]
        st["eq"] = st["ineq"] = None
        return ("call", "set_distribution", [p], kw), st
    if op == "none":
        st["values"] = st["eq"] = st["ineq"] = None
        return ("call", rng.choice(["set_values", "set_distribution"]), [None], {}), st
    if op == "obj":
        d = {m: num(rng) for m in pick(rng.randint(1, 3))}
        st["obj"] = [d, rng.choice(["max", "min"])]
        return ("call", "set_objective", [d, st["obj"][1]], {}), st
    if op == "objnone":
        st["obj"] = None
        return ("call", "set_objective", [None], {}), st
    if op in ("up", "lo"):
        d = {m: (rng.choice([1, 1.5, 2]) if op == "up" else rng.choice([0, -0.5, -1, 0.0])) for m in pick(rng.randint(1, 3))}
        if rng.random() < .3:
            # bounds that bite, on moments the values leave alone
            free = [m for m in names if m not in ctx["assignable"]]
            for m in rng.sample(free, min(len(free), 2)):
                d[m] = rng.choice([.5, .75]) if op == "up" else rng.choice([.05, .1])
        st[op] = d
        return ("call", "set_bounds", [d, op], {}), st
    if op in ("upnone", "lonone"):
        st[op[:2]] = None
        return ("call", "set_bounds", [None, op[:2]], {}), st
    if op in ("eq", "ineq", "eqnone"):
        rows = [] if op == "eqnone" else [{m: num(rng) for m in pick(rng.randint(1, 3))} for _ in range(rng.randint(1, 2))]
        k = rng.choice(["eq", "ineq"]) if op == "eqnone" else op
        st[k] = rows or None
        return ("call", "set_extra_equalities" if k == "eq" else "set_extra_inequalities", [rows if rows or rng.random() < .5 else None], {}), st
    if op in ("reset", "resetlist"):
        w = [rng.choice(["values", "objective", "bounds", "lowerbounds", "upperbounds", "all"]) for _ in range(1 if op == "reset" else 2)]
        for x in w:
            if x in ("values", "all"):
                st["values"] = st["eq"] = st["ineq"] = None
            if x in ("objective", "all"):
                st["obj"] = None
            if x in ("bounds", "lowerbounds", "all"):
                st["lo"] = None
            if x in ("bounds", "upperbounds", "all"):
                st["up"] = None
        return ("call", "reset", [w[0] if op == "reset" else w], {}), st
    return (op, rng.randrange(10**6)), st


def run_ops(s, ops, ctx, peek):
    """apply the operations; returns the settings they leave"""
    import random as R
    st = fresh_state()
    last = None
    trace = []
    # the caller may keep one dictionary, list or array and modify it between the calls, or do away with it after the call
    bufs = [None, {}, "poison", None][sum(x for _, x in ops) % 4]
    if bufs is not None:
        trace.append("one object modified in place" if bufs == {} else "arguments overwritten after each call")
    for op, seed in ops:
        what, st = make(R.Random(seed), op, st, ctx)
        if what[0] == "again":
            what = last or ("nothing",)
            if what[0] == "call":
                st = after_again(what, st)
        if what[0] == "call":
            trace.append(f"{what[1]}({', '.join(short(a, 200) for a in what[2])}{', ' + short(what[3], 80) if what[3] else ''})")
            Driver.call(None, s, what[1], *what[2], bufs=bufs, **what[3])
            last = what
        elif what[0] in ("lookup", "read", "solve"):
            trace.append(what[0])
            with prog.quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                peek(s, what[0], R.Random(what[1]))
    return st, trace


def after_again(what, st):
    """repeating the last call changes nothing, except that setting values discards extra constraints set since"""
    st = dict(st)
    m, a = what[1], what[2]
    return st
