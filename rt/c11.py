"""C11: the state of a linear program depends only on the current settings."""
from .base import *
from . import scen, prog, lpspy, hist
from .lpspy import Prog
from .c07 import distribution
import numpy as np
import warnings


def gen(rng, tier, supports=False):
    for P in prog.stream_lp(rng, 60):
        for _ in range(3):
            kw = {"supports_problem": True} if supports else rng.choice([{}, {}, {"include_all_outcomes": True}])
            yield dict(P=P, kw=kw, seed=rng.randrange(10**6), ops=hist.gen_ops(rng, rng.randint(2, 7), "lp", supports))


def context(s, P, seed, supports):
    names = [str(m) for m in s.monomials]
    atoms = [m for m in s.knowable_atoms]
    prods = [m for m in s.monomials if not m.is_atomic]
    unknown = [m for m in s.monomials if m.is_atomic and not m.is_knowable]

    def dist_of(rng):
        return distribution(P, seed * 7 + rng.randrange(3), rng.choice(["random", "deterministic"]))

    def values_of(rng):
        p = dist_of(rng)
        ks = [m for m in atoms if str(m) != "1"]
        v = {str(m): float(m.compute_marginal(p)) for m in rng.sample(ks, min(len(ks), rng.randint(0, 3)))}
        if rng.random() < .3 and unknown:
            v[str(rng.choice(unknown))] = rng.choice([0, .25, .125])
        if rng.random() < .2 and prods:
            v[str(rng.choice(prods))] = rng.choice([0, .25, .125])
        return v
    return dict(names=names, assignable=set(names), dist_of=dist_of, values_of=values_of, supports=supports)


def solved(s):
    with lpspy.spy() as log, prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.solve()
    return lpspy.programs(log)[0][0]


def described(s, names):
    """the program by name, as given to writers"""
    a = s._prepare_solver_arguments(separate_bounds=False)
    vs = list(names) + [v for v in a["variables"] if v not in names]
    P = Prog(vs)
    P.c = P.row(a["objective"])
    for k, v in a["known_vars"].items():
        P.add_eq({k: 1}, v)
    for k, (c, x) in a["semiknown_vars"].items():
        P.eq.append((P.row({k: 1}) - c * P.row({x: 1}), 0.0))
    for r in a["equalities"]:
        P.add_eq(r)
    for r in a["inequalities"]:
        P.add_ge(r)
    return P


def peek(s, what, rng):
    if what == "lookup":
        names = [str(m) for m in s.monomials if str(m) != "1"]
        for _ in range(2):
            s._sanitise_monomial("*".join(rng.sample(names, min(len(names), rng.randint(1, 2)))))
    elif what == "read":
        str(s.moment_equalities), str(s.moment_inequalities)
        s._prepare_solver_arguments(separate_bounds=rng.random() < .5)
    else:
        solved(s)


def run(c):
    s = prog.new_lp(c["P"], **c["kw"])
    supports = bool(c["kw"].get("supports_problem"))
    ctx = context(s, c["P"], c["seed"], supports)
    if len(ctx["names"]) < 2:
        raise Skip("no variables")
    st, trace = hist.run_ops(s, c["ops"], ctx, peek)
    f = prog.new_lp(c["P"], **c["kw"])
    hist.apply_state(f, st)
    try:
        df = solved(f)
    except (KeyError, AssertionError):
        raise Skip("the program of these settings is refused")
    ds = solved(s)
    names = ctx["names"]
    P, Q = lpspy.as_primal(df, names), lpspy.as_primal(ds, names)
    if P is None or Q is None:
        P, Q = lpspy.as_dual(df, names), lpspy.as_dual(ds, names)
    need(P is not None and Q is not None, "both programs are over the variables")
    m = lpspy.same(P, Q).replace("stated", "described by the settings").replace("handed over", "left by the history")
    need(not m, f"after {trace}: {m}")
    P, Q = described(f, names), described(s, names)
    m = lpspy.same(P, Q).replace("stated", "described by the settings").replace("handed over", "left by the history")
    need(not m, f"after {trace}, the program by name: {m}")
    need(bool(f.maximize) == bool(s.maximize), f"after {trace}: the direction differs")
    return "trivial" if all(v is None for v in st.values()) else None


GROUPS = {"history": (gen, run), "supports": (lambda rng, tier: gen(rng, tier, True), run)}
WEIGHTS = {"history": 2.0}
