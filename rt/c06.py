"""C06: moment matrix entries coincide exactly when their operator products do."""
from .base import *
from . import scen, prog
from .ref import Ref, trace_class, canonical
import numpy as np


def gen_rand(rng, tier):
    while True:
        # operators come in measurements: consecutive ranks, orthogonal outcomes, equal commutation
        sizes = [rng.choice([1, 1, 2, 2, 3]) for _ in range(rng.randint(1, 4))]
        k = sum(sizes)
        grp = [None] + [g for g, z in enumerate(sizes) for _ in range(z)]
        dens = rng.choice([0, .2, .5, .8, 1])
        G = [[False] * len(sizes) for _ in sizes]
        for a in range(len(sizes)):
            for b in range(a):
                G[a][b] = G[b][a] = rng.random() < dens
        N = [[False] * (k + 1) for _ in range(k + 1)]
        O = [[False] * (k + 1) for _ in range(k + 1)]
        for a in range(1, k + 1):
            for b in range(1, k + 1):
                N[a][b] = G[grp[a]][grp[b]]
                O[a][b] = a != b and grp[a] == grp[b]
        for a in range(k + 1):
            O[0][a] = O[a][0] = True
        commuting = dens == 0 and rng.random() < .7
        cols = [[]] if rng.random() < .8 else []
        seen = {()}
        for _ in range(rng.randint(1, 7)):
            w = canonical(tuple(rng.randint(1, k) for _ in range(rng.randint(1, 3))), lambda a, b: not N[a][b], lambda a, b: O[a][b])
            if w is not None and w not in seen:
                seen.add(w)
                cols.append(list(w))
        if cols:
            if rng.random() < .2:
                rng.shuffle(cols)
            c = dict(N=N, O=O, cols=cols, commuting=commuting)
            if rng.random() < .25:
                # the same measurements among many others: ranks far apart
                c["ranks"] = sorted(rng.sample(range(1, 800), k)) if rng.random() < .5 else sorted({256 * i + rng.choice([1, 2]) for i in range(k)})
                if len(c["ranks"]) < k:
                    del c["ranks"]
            yield c


def check(mm, corresp, cols, com, ort, limit=6):
    """mm, corresp against brute force over all arrangements"""
    n = len(cols)
    mm = np.asarray(mm)
    need(mm.shape == (n, n), "one row and column per generating monomial")
    need((mm == mm.T).all(), "the matrix is symmetric")
    by, memo = {}, {}
    order = []
    complete = True
    for i in range(n):
        for j in range(i, n):
            w = tuple(cols[i][::-1]) + tuple(cols[j])
            v = int(mm[i, j])
            if v not in order and v:
                order.append(v)
            if len(w) > limit:
                complete = False
                continue
            if w not in memo:
                k = canonical(w, com, ort)
                memo[w] = None if k is None else min(k, min(trace_class(k[::-1], com)))
            k = memo[w]
            need((v == 0) == (k is None), "zero iff the product vanishes", row=cols[i], column=cols[j], index=v)
            if k is not None:
                need(by.setdefault(k, v) == v, "equal products carry equal indices", row=cols[i], column=cols[j])
    need(len(set(by.values())) == len(by), "different products carry different indices")
    need(order == list(range(1, len(order) + 1)), "indices are consecutive in order of first appearance", order=order[:10])
    if complete:
        got = {tuple(int(x) for x in k): int(v) for k, v in corresp.items()}
        need(got == by, "the dictionary lists each canonical product once", extra=sorted(set(got.items()) - set(by.items()))[:3], missing=sorted(set(by.items()) - set(got.items()))[:3])


def run_rand(c):
    from inflation.sdp.quantum_tools import calculate_momentmatrix_1d_internal as f
    N, O = c["N"], c["O"]
    if "ranks" in c:
        at = [0] + c["ranks"]
        n = at[-1] + 2
        N, O = np.zeros((n, n), dtype=bool), np.zeros((n, n), dtype=bool)
        N[np.ix_(at, at)], O[np.ix_(at, at)] = c["N"], c["O"]
        O[0] = O[:, 0] = True
        c = dict(c, cols=[[at[x] for x in w] for w in c["cols"]])
    cols = [np.array(w, dtype=np.intc) for w in c["cols"]]
    mm, d = f(cols, np.array(N, dtype=bool), np.array(O, dtype=bool), commuting=c["commuting"])
    need([w.tolist() for w in cols] == c["cols"], "the columns are not modified")
    check(mm, d, c["cols"], lambda a, b: not N[a][b], lambda a, b: O[a][b])
    return "trivial" if len(cols) == 1 else None


def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 16):
        yield dict(P=P, spec="npa1" if scen.nops(P) > 8 or rng.random() < .6 else "npa2")


def run_sdp(c):
    """the matrix a relaxation builds before symmetrisation"""
    P = c["P"]
    r = Ref(P)
    s = prog.sdp0(P)
    s.build_columns(c["spec"])
    if len(s.generating_monomials_1d) > 40:
        raise Skip("large")
    mm, d = s._build_momentmatrix_1d_internal()
    ops = [tuple(int(x) for x in o) for o in s._lexorder]
    cols = [tuple(int(x) for x in m) for m in s.generating_monomials_1d]
    com = lambda a, b: r.commute(ops[a], ops[b])
    ort = lambda a, b: r.orthogonal(ops[a], ops[b])
    check(mm, {tuple(int(x) for x in np.asarray(v)): k for k, v in d.items()}, cols, com, ort, 5)


def gen_final(rng, tier):
    for P in prog.stream_sdp(rng, 12):
        yield dict(P=P, spec="npa1" if scen.nops(P) > 8 or rng.random() < .6 else "npa2")


def run_final(c):
    """after symmetrisation: the moment of an entry is the moment of its product"""
    P = c["P"]
    r = Ref(P)
    s = prog.sdp(P, c["spec"])
    ops = [tuple(int(x) for x in o) for o in s._lexorder]
    cols = [tuple(int(x) for x in m) for m in s.generating_monomials_1d]
    if len(cols) > 40:
        raise Skip("large")
    com = lambda a, b: r.commute(ops[a], ops[b])
    ort = lambda a, b: r.orthogonal(ops[a], ops[b])
    mm = np.asarray(s.momentmatrix)
    need((mm == mm.T).all() and mm.shape == (len(cols),) * 2, "the symmetrised matrix is symmetric")
    rng = random.Random(len(cols))
    pairs = [(i, j) for i in range(len(cols)) for j in range(i, len(cols))]
    rng.shuffle(pairs)
    used = set(int(x) for x in mm.ravel())
    need(set(s.compmoment_from_idx) == used, "one moment per index", extra=sorted(set(s.compmoment_from_idx) - used)[:4])
    need(len(set(s.moments)) == len(s.moments) == len(used), "different indices are different moments")
    for i, j in pairs[:150]:
        w = cols[i][::-1] + cols[j]
        if len(w) > 6:
            continue
        k = canonical(w, com, ort)
        m = s.compmoment_from_idx[int(mm[i, j])]
        if k is None:
            need(bool(m.is_zero) and int(mm[i, j]) == 0, "a vanishing product is the zero moment", row=cols[i], column=cols[j])
            continue
        want = s.Moment_1d(np.array(k, dtype=np.intc)) if k else s.One
        need(m == want, "the entry is the moment of its product", row=cols[i], column=cols[j], got=str(m), want=str(want))
        need(bool(m.is_one) == (len(k) == 0), "only the empty product is the unit moment")


GROUPS = {"random": (gen_rand, run_rand), "relaxation": (gen_sdp, run_sdp), "moments": (gen_final, run_final)}
WEIGHTS = {"random": 2, "relaxation": 2, "moments": 2}
