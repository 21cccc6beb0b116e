"""C07: moments receive exactly the probabilities the given distribution assigns."""
from .base import *
from . import scen, prog
from .ref import Ref
from .model import CModel, QModel, quantum_ok
import numpy as np
from itertools import product


def distribution(P, seed, kind):
    """a normalised conditional distribution in which choices of settings do not signal backwards"""
    if kind == "q" and quantum_ok(P):
        return QModel(P, seed).dist()
    if kind == "mix":
        rng = random.Random(seed)
        w = [rng.random() for _ in range(3)]
        return sum(x / sum(w) * CModel(P, seed + i, 2).dist() for i, x in enumerate(w))
    if kind == "prod":
        # independent parties: a different number for every event
        r = Ref(P)
        rng = np.random.default_rng(seed)
        A = np.ones(tuple(r.out) + tuple(r.priv))
        t = [rng.dirichlet([1] * r.out[p], size=(len(r.eff[p]),)) for p in range(r.nparties)]
        for ax in product(*[range(n) for n in r.out], *[range(n) for n in r.priv]):
            a, x = ax[:r.nparties], ax[r.nparties:]
            for p in range(r.nparties):
                st = (x[p],) + tuple(a[q] for q in r.parents[p])
                A[ax] *= t[p][r.eff[p].index(st), a[p]]
        return A
    return CModel(P, seed, 3).dist()


def prob(r, A, ops):
    """probability of a readable event, at setting 0 of every party that is not mentioned"""
    fix = {o[0] - 1: o for o in ops}
    x = tuple(r.eff[p][fix[p][-2]][0] if p in fix else 0 for p in range(r.nparties))
    tot = 0.
    for a in product(*[[fix[p][-1]] if p in fix else range(r.out[p]) for p in range(r.nparties)]):
        tot += A[a + x]
    return float(tot)


KINDS = ["prod", "prod", "mix", "c", "q"]


def value(r, A, mon):
    v = 1.
    for f in mon.factors:
        m = [tuple(int(x) for x in o) for o in f.as_2d_array]
        if f.is_zero:
            return 0.
        if not m:
            continue
        if not r.knowable(m):
            return None
        v *= prob(r, A, m)
    return v


def gen(rng, tier):
    for P in prog.stream_sdp(rng, 14):
        yield dict(P=P, prog="sdp", spec="npa1" if scen.nops(P) > 8 or rng.random() < .7 else "npa2", seed=rng.randrange(10**6), kind=rng.choice(KINDS))


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 250):
        yield dict(P=P, prog="lp", seed=rng.randrange(10**6), kind=rng.choice(KINDS))


def run(c):
    P = c["P"]
    r = Ref(P)
    if c["prog"] == "sdp":
        s = prog.sdp(P, c["spec"])
        mons = list(s.moments)
    else:
        s = prog.lp(P)
        mons = list(s.monomials)
    A = distribution(P, c["seed"], c["kind"])
    B = A.copy()
    # readable single moments
    for f in s.atomic_factors:
        if f.is_knowable and not f.is_one and not f.is_zero:
            m = [tuple(int(x) for x in o) for o in f.as_2d_array]
            need(r.knowable(m), "only readable moments are read", moment=m)
            got, want = float(f.compute_marginal(A)), prob(r, A, m)
            need(abs(got - want) < 1e-9, "probability of the event", moment=m, got=got, want=want)
    n = 0
    for mon in mons:
        w = value(r, A, mon)
        if w is None:
            try:
                v = mon.compute_marginal(A)
            except AssertionError:
                continue
            need(False, "a moment that is not readable has no marginal", moment=str(mon), got=v)
        n += 1
        got = float(mon.compute_marginal(A))
        need(abs(got - w) < 1e-9, "a product receives the product of its factors' probabilities", moment=str(mon), got=got, want=w)
    for lpi, shared in ((False, False), (False, True)):
        s.set_distribution(A, use_lpi_constraints=lpi, shared_randomness=shared)
        known = dict(s.known_moments)
        for mon in mons:
            w = value(r, A, mon)
            atomic = len([f for f in mon.factors if not f.is_one]) <= 1
            if w is not None and (atomic or not shared):
                need(mon in known, "a readable moment receives its probability", moment=str(mon), shared=shared)
                need(abs(float(known[mon]) - w) < 1e-9, "value of a moment", moment=str(mon), got=known[mon], want=w)
            else:
                need(mon not in known, "a moment that is not readable receives no value", moment=str(mon), shared=shared, got=known.get(mon))
        for mon in known:
            need(value(r, A, mon) is not None, "only readable moments are known", moment=str(mon))
        need(not s.semiknown_moments, "nothing is partially known without polynomial constraints")
        need(abs(float(known.get(s.One, 1)) - 1) < 1e-12, "the unit moment is 1")
    if c["prog"] == "sdp":
        if s.momentmatrix_has_a_zero:
            need(float(known[s.Zero]) == 0., "the zero moment is 0")
    need((A == B).all(), "the distribution is not modified")
    # another distribution replaces the first
    A2 = distribution(P, c["seed"] + 1, "prod")
    s.set_distribution(A2)
    for mon in mons:
        w = value(r, A2, mon)
        need((w is None) == (mon not in s.known_moments), "values of the last distribution only", moment=str(mon))
        if w is not None:
            need(abs(float(s.known_moments[mon]) - w) < 1e-9, "value under the last distribution", moment=str(mon))
    s.set_distribution(None)
    need(not [m for m in s.known_moments if not m.is_one and not m.is_zero], "no distribution, no values")
    return "trivial" if n < 2 else None


def gen_marg(rng, tier):
    while True:
        n = rng.randint(1, 4)
        out = [rng.randint(2, 3) for _ in range(n)]
        st = [rng.randint(1, 3) for _ in range(n)]
        yield dict(out=out, st=st, seed=rng.randrange(10**6), S=[p for p in range(n) if rng.random() < .6], k=rng.randrange(100))


def run_marg(c):
    from inflation.sdp.monomial_utils import compute_marginal
    rng = np.random.default_rng(c["seed"])
    n = len(c["out"])
    # product behaviours with a common hidden value: no signalling, generic numbers
    A = np.zeros(c["out"] + c["st"])
    for _ in range(2):
        t = [rng.dirichlet([1] * c["out"][p], size=c["st"][p]) for p in range(n)]
        for ax in product(*[range(x) for x in c["out"]], *[range(x) for x in c["st"]]):
            A[ax] += .5 * np.prod([t[p][ax[n + p], ax[p]] for p in range(n)])
    rr = random.Random(c["k"])
    atom = [[p + 1, rr.randrange(c["st"][p]), rr.randrange(c["out"][p])] for p in c["S"]]
    fix = {o[0] - 1: o for o in atom}
    want = 0.
    x = tuple(fix[p][1] if p in fix else 0 for p in range(n))
    for a in product(*[[fix[p][2]] if p in fix else range(c["out"][p]) for p in range(n)]):
        want += A[a + x]
    B = A.copy()
    arr = np.array(atom, dtype=int).reshape((-1, 3))
    got = compute_marginal(A, arr)
    need(abs(float(got) - want) < 1e-9, "marginal of the event", event=atom, got=got, want=want, shape=A.shape)
    need((A == B).all() and arr.tolist() == atom, "arguments unchanged")


GROUPS = {"marginal": (gen_marg, run_marg), "sdp": (gen, run), "lp": (gen_lp, run)}
WEIGHTS = {"marginal": 1, "sdp": 3, "lp": 3}
