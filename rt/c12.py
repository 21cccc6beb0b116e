"""C12: the state of a semidefinite program depends only on the current settings."""
from .base import *
from . import scen, prog, sdpspy, hist, c10
from .sdpspy import SProg
from .ref import Ref
from .c07 import distribution
import numpy as np
import warnings


def gen(rng, tier, supports=False):
    for P in prog.stream_sdp(rng, 8):
        for _ in range(2):
            kw = {"supports_problem": True} if supports else rng.choice([{}, {}, {"include_all_outcomes": True}])
            yield dict(P=P, kw=kw, cols="npa2" if scen.nops(P) <= 5 and rng.random() < .3 else rng.choice(["npa1", "local1"]), seed=rng.randrange(10**6),
                       ops=hist.gen_ops(rng, rng.randint(2, 7), "sdp", supports))


def context(s, P, seed, supports):
    names = [str(m) for m in s.moments if str(m) != "0"]
    atoms = [m for m in s.knowable_atoms]
    prods = [m for m in s.moments if not m.is_atomic and not m.is_zero and not m.is_one]
    unknown = [m for m in s.moments if m.is_atomic and not m.is_knowable and not m.is_zero and not m.is_one]

    def dist_of(rng):
        return distribution(P, seed * 7 + rng.randrange(3), rng.choice(["random", "deterministic"]))

    def values_of(rng):
        p = dist_of(rng)
        ks = [m for m in atoms if str(m) not in "01"]
        v = {str(m): float(m.compute_marginal(p)) for m in rng.sample(ks, min(len(ks), rng.randint(0, 3)))}
        if rng.random() < .3 and unknown:
            v[str(rng.choice(unknown))] = rng.choice([0, .25, .125])
        if rng.random() < .2 and prods:
            v[str(rng.choice(prods))] = rng.choice([0, .25, .125])
        return v
    return dict(names=names, assignable=set(names), dist_of=dist_of, values_of=values_of, supports=supports)


def described(s):
    """the program solve() hands over, by name"""
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a = prog.capture_sdp(s)
    vs = list(a["mask_matrices"])
    for d in [a["objective"], a["known_vars"], *a["equalities"], *a["inequalities"]]:
        vs += [v for v in d if v not in vs]
    vs += [v for k, (_, w) in a["semiknown_vars"].items() for v in (k, w) if v not in vs]
    return a, vs


def as_prog(a, vs):
    P = SProg(vs, 0)
    P.c = P.row(a["objective"])
    for k, v in a["known_vars"].items():
        P.add_eq({k: 1}, v)
    for k, (c, x) in a["semiknown_vars"].items():
        P.eq.append((P.row({k: 1}) - c * P.row({x: 1}), 0.0))
    for r in a["equalities"]:
        P.add_eq(r)
    for r in a["inequalities"]:
        P.add_ge(r)
    return P


def peek(s, what, rng):
    if what == "lookup":
        ops = s._lexorder_len
        for _ in range(2):
            w = [rng.randrange(1, ops) for _ in range(rng.randint(1, 3))]
            m = s.Moment_1d(s._to_canonical_memoized_1d(np.array(w, dtype=np.intc)))
            m.knowability_status, m.name, m.is_hermitian
        names = [str(m) for m in s.moments if str(m) not in "01"]
        s._sanitise_moment("*".join(rng.sample(names, min(len(names), rng.randint(1, 2)))))
    elif what == "read":
        s._prepare_solver_arguments()
    else:
        with prog.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            prog.capture_sdp(s, feas_as_optim=rng.random() < .3)


def run(c):
    s = prog.new_sdp(c["P"], c["cols"], **c["kw"])
    supports = bool(c["kw"].get("supports_problem"))
    ctx = context(s, c["P"], c["seed"], supports)
    if len(ctx["names"]) < 2:
        raise Skip("no variables")
    f = prog.new_sdp(c["P"], c["cols"], **c["kw"])
    try:
        st, trace = hist.run_ops(s, c["ops"], ctx, peek)
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("contradictory settings")
        raise
    hist.apply_state(f, st)
    (a, v), (b, w) = described(f), described(s)
    names = v + [x for x in w if x not in v]
    P, Q = as_prog(a, names), as_prog(b, names)
    m = sdpspy.same(P, Q).replace("stated", "described by the settings").replace("handed over", "left by the history")
    need(not m, f"after {trace}: {m}")
    A, B = a["mask_matrices"], b["mask_matrices"]
    need(set(A) == set(B), f"after {trace}: moments of the matrix", A=sorted(A), B=sorted(B))
    need(all((A[k] != B[k]).nnz == 0 for k in A), f"after {trace}: the matrix")
    need(bool(f.maximize) == bool(s.maximize), f"after {trace}: the direction differs")
    return "trivial" if all(x is None for x in st.values()) else None


GROUPS = {"history": (gen, run), "supports": (lambda rng, tier: gen(rng, tier, True), run)}
WEIGHTS = {"history": 2.0}
