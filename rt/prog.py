"""Building relaxations of the real library."""
import json
import sys
import io
import contextlib
from functools import lru_cache
from .base import *
from . import scen
import numpy as np


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield
    finally:
        sys.stdout = old


def sdp0(P, **kw):
    from inflation import InflationSDP
    return InflationSDP(scen.problem(P), **kw)


def new_sdp(P, cols="npa1", **kw):
    """a fresh relaxation; scenarios whose columns are not closed under relabelings are refused by the library"""
    s = sdp0(P, **kw)
    try:
        s.generate_relaxation(cols)
    except AssertionError as e:
        if "Multiple indices" in str(e):
            raise Skip("columns not closed under symmetry")
        raise
    return s


def new_lp(P, **kw):
    from inflation import InflationLP
    with quiet():
        return InflationLP(scen.problem(P), **kw)


@lru_cache(maxsize=48)
def _sdp(key):
    P, cols, kw = json.loads(key)
    return new_sdp(P, cols, **kw)


@lru_cache(maxsize=48)
def _lp(key):
    P, kw = json.loads(key)
    return new_lp(P, **kw)


def sdp(P, cols="npa1", **kw):
    return _sdp(json.dumps([P, cols, kw]))


def lp(P, **kw):
    return _lp(json.dumps([P, kw]))


def rows(a):
    return [tuple(int(x) for x in r) for r in np.asarray(a)]


def ncols(P, spec):
    """upper bound for the number of columns of npaN"""
    n = scen.nops(P)
    return sum(n ** k for k in range(int(spec[3:]) + 1))


def lp_size(P, cap=20000):
    """number of events over compatible templates (upper bound for the LP)"""
    from .ref import Ref
    r = Ref(P)
    t = sorted({o[:-1] for o in r.operators()})
    m = [r.out[x[0] - 1] for x in t]
    if not r.quantum:
        tot = 1
        for k in m:
            tot *= (k + 1)
            if tot > cap:
                return cap + 1
        return tot
    comm = [[r.commute(a + (0,), b + (0,)) for b in t] for a in t]
    tot = 0
    stack = [(1, list(range(len(t))))]
    while stack:
        c, cand = stack.pop()
        tot += c
        if tot > cap:
            return cap + 1
        for i, u in enumerate(cand):
            stack.append((c * m[u], [v for v in cand[i + 1:] if comm[u][v]]))
    return tot


def stream_lp(rng, cap=600, **kw):
    """scenarios with a small linear program"""
    for k, P in scen.HAND.items():
        if lp_size(P, cap) <= cap:
            yield dict(P)
    hand = [P for P in scen.HAND.values() if lp_size(P, cap) <= cap]
    while True:
        if rng.random() < .2:
            yield dict(rng.choice(hand))
            continue
        P = scen.rand(rng, 24, maxparties=3, levels=(1, 1, 2, 2), maxset=2, **kw)
        if lp_size(P, cap) <= cap:
            yield P


def stream_sdp(rng, maxops=14, **kw):
    for k, P in scen.HAND.items():
        if scen.nops(P) <= maxops:
            yield dict(P)
    hand = [P for P in scen.HAND.values() if scen.nops(P) <= maxops]
    while True:
        if hand and rng.random() < .2:
            yield dict(rng.choice(hand))
            continue
        yield scen.rand(rng, maxops, maxparties=3, levels=(1, 1, 2, 2), maxset=2, **kw)


def capture_lp(prog, **kw):
    """the arguments solve() hands to solveLP, without solving"""
    import inflation.lp.InflationLP as M
    got = {}

    def fake(**a):
        got.update(a)
        return dict(success=False, status="fake", dual_certificate={}, x={}, primal_value=None, dual_value=None)
    old = M.solveLP
    M.solveLP = fake
    try:
        prog.solve(**kw)
    finally:
        M.solveLP = old
    return got


def capture_sdp(prog, **kw):
    import inflation.sdp.InflationSDP as M
    got = {}

    def fake(**a):
        got.update(a)
        return dict(status="infeasible", dual_certificate={}, primal_value=None, dual_value=None)
    old = M.solveSDP_MosekFUSION
    M.solveSDP_MosekFUSION = fake
    try:
        prog.solve(**kw)
    finally:
        M.solveSDP_MosekFUSION = old
    return got
