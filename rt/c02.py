"""C02: operators commute exactly when the causal structure says so."""
from .base import *
from . import scen
from .ref import Ref
import numpy as np


def gen(rng, tier):
    for P in scen.stream(rng, 60):
        yield P


def run(P):
    r = Ref(P)
    prob = scen.problem(P)
    ops = [tuple(int(x) for x in o) for o in prob._lexorder]
    N = np.asarray(prob._default_notcomm)
    n = len(ops)
    need(N.shape == (n, n), "one row and column per operator", shape=N.shape)
    need(not N.diagonal().any(), "every operator commutes with itself")
    need(bool((N == N.T).all()), "the relation is symmetric")
    for i in range(n):
        for j in range(i):
            want = not r.commute(ops[i], ops[j])
            need(bool(N[i, j]) == want, "two operators commute iff the causal structure says so", a=ops[i], b=ops[j], commute_by_structure=not want)
    return "trivial" if n < 3 else None


# the pairwise predicate itself, over all pairs of rows for random source relations
def gen_pair(rng, tier):
    while True:
        ns, npar = rng.randint(1, 4), rng.randint(1, 3)
        S = [[[0] * ns for _ in range(npar)] for _ in range(npar)]
        for a in range(npar):
            for b in range(a, npar):
                for s in range(ns):
                    S[a][b][s] = S[b][a][s] = rng.choice([0, 1, 2, 2])
        def op():
            return [rng.randint(1, npar)] + [rng.choice([0, 1, 1, 2, 2, 3]) for _ in range(ns)] + [rng.randint(0, 1), rng.randint(0, 2)]
        yield dict(S=S, ops=[op() for _ in range(12)], commuting=rng.random() < .15)


def spec(S, o1, o2):
    rel = S[o1[0] - 1][o2[0] - 1]
    ns = len(rel)
    if not any(rel[s] == 2 and o1[1 + s] == o2[1 + s] for s in range(ns)):
        return True
    if any(rel[s] >= 1 and o1[1 + s] != o2[1 + s] for s in range(ns)):
        return False
    return o1[0] != o2[0] or o1[-2] == o2[-2]


def run_pair(c):
    from inflation.sdp.fast_npa import nb_operators_commute, commutation_matrix
    S = np.array(c["S"], dtype=np.uint8)
    ops = [np.array(o, dtype=np.uint8) for o in c["ops"]]
    for a in c["ops"]:
        for b in c["ops"]:
            got = bool(nb_operators_commute(np.array(a, dtype=np.uint8), np.array(b, dtype=np.uint8), S))
            need(got == spec(c["S"], a, b), "nb_operators_commute against its contract", a=a, b=b, relation=c["S"][a[0] - 1][b[0] - 1], got=got)
    uniq = [list(x) for x in dict.fromkeys(map(tuple, c["ops"]))]
    M = commutation_matrix(np.array(uniq, dtype=np.uint8), S, c["commuting"])
    for i, a in enumerate(uniq):
        for j, b in enumerate(uniq):
            want = False if (c["commuting"] or i == j) else not spec(c["S"], a, b)
            need(bool(M[i, j]) == want, "commutation_matrix against its contract", a=a, b=b, commuting=c["commuting"], got=bool(M[i, j]))


# the relation used by the hierarchies
def gen_rel(rng, tier):
    for P in scen.stream(rng, 30):
        yield P


def run_rel(P):
    from inflation import InflationSDP, InflationLP
    r = Ref(P)
    prob = scen.problem(P)
    sdp = InflationSDP(prob)
    ops = [tuple(int(x) for x in o) for o in sdp._lexorder]
    n = len(ops)
    need(ops[0] == (0,) * len(ops[0]) and set(ops[1:]) == set(r.operators()), "operators of the hierarchy")
    for i in range(1, n):
        for j in range(1, n):
            com = r.commute(ops[i], ops[j])
            need(bool(sdp._notcomm[i, j]) == (not com and i != j), "non-commutation used by the hierarchy", a=ops[i], b=ops[j])
            need(bool(sdp._orthomat[i, j]) == r.orthogonal(ops[i], ops[j]), "orthogonality used by the hierarchy", a=ops[i], b=ops[j])
            if i < j:
                need(bool(sdp.all_commuting_q_1d(np.array([i, j]))) == com, "all_commuting_q of a pair", a=ops[i], b=ops[j])
                need(bool(sdp.all_commuting_q_2d(np.array([ops[i], ops[j]]))) == com, "all_commuting_q of a pair", a=ops[i], b=ops[j])
    need(bool(sdp.all_operators_commute) == all(r.commute(a, b) for a in ops[1:] for b in ops[1:]), "whether everything commutes")
    allc = sdp.all_operators_commute
    try:
        s2 = InflationSDP(prob, commuting=True)
        need(allc, "a non-commuting scenario cannot be declared commuting")
        need(not np.asarray(s2._notcomm).any(), "everything commutes once declared")
    except AssertionError:
        need(not allc, "a commuting scenario can be declared commuting")
    return "trivial" if n < 4 else None


GROUPS = {"scenario": (gen, run), "pairs": (gen_pair, run_pair), "hierarchy": (gen_rel, run_rel)}
