"""C04: moments factorise into exactly their source-independent pieces."""
from .base import *
from . import scen, prog
from .ref import Ref
import numpy as np


def parts(n, linked):
    """positions grouped by chains of links, independent of the library"""
    left, out = set(range(n)), []
    while left:
        c, todo = set(), [min(left)]
        while todo:
            i = todo.pop()
            if i in c:
                continue
            c.add(i)
            todo += [j for j in left if j not in c and linked(i, j)]
        out.append(tuple(sorted(c)))
        left -= c
    return set(out)


def gen_graph(rng, tier):
    from itertools import combinations
    for n in range(1, 5):
        pairs = list(combinations(range(n), 2))
        for bits in range(1 << len(pairs)):
            yield dict(n=n, edges=[p for k, p in enumerate(pairs) if bits >> k & 1])
    while True:
        n = rng.randint(5, 14)
        p = rng.choice([.05, .15, .3])
        e = [(i, j) for i in range(n) for j in range(i + 1, n) if rng.random() < p]
        if rng.random() < .3:      # a path visited in a scrambled order
            o = list(range(n))
            rng.shuffle(o)
            e = [(o[i], o[i + 1]) for i in range(n - 1) if rng.random() < .9]
        yield dict(n=n, edges=e)


def groups(lab):
    g = {}
    for i, l in enumerate(lab):
        g.setdefault(int(l), []).append(i)
    return {tuple(v) for v in g.values()}


def run_graph(c):
    from inflation.sdp.fast_npa import nb_classify_disconnected_components
    n = c["n"]
    A = np.eye(n, dtype=bool)
    for i, j in c["edges"]:
        A[i, j] = A[j, i] = True
    B = A.copy()
    lab = np.asarray(nb_classify_disconnected_components(A))
    need(len(lab) == n, "one label per vertex")
    need(groups(lab) == parts(n, lambda i, j: B[i, j]), "vertices share a label iff a path joins them", edges=c["edges"], labels=lab)
    need(sorted(set(int(x) for x in lab)) == list(range(len(set(lab.tolist())))), "labels are 0..k-1", labels=lab)
    need((A == B).all(), "the graph is not modified")


def gen_comp(rng, tier):
    while True:
        ns = rng.randint(1, 3)
        hi = rng.choice([1, 2, 3, 4])
        yield dict(ns=ns, m=[[rng.randint(1, 3)] + [rng.choice([0, rng.randint(1, hi)]) for _ in range(ns)] + [rng.randint(0, 2), rng.randint(0, 2)] for _ in range(rng.randint(0, 7))])


def run_comp(c):
    from inflation.sdp.fast_npa import nb_monomial_to_components, nb_overlap_matrix, nb_exists_shared_source
    m = c["m"]
    a = np.array(m, dtype=np.uint8).reshape((-1, c["ns"] + 3))
    sh = lambda i, j: any(x == y and x for x, y in zip(m[i][1:-2], m[j][1:-2]))
    lab = np.asarray(nb_monomial_to_components(a))
    need(len(lab) == len(m), "one label per operator")
    if m:
        need(groups(lab) == parts(len(m), lambda i, j: sh(i, j)), "same factor iff linked by shared copies", monomial=m, labels=lab)
        O = np.asarray(nb_overlap_matrix(a[:, 1:-2].copy()))
        for i in range(len(m)):
            for j in range(len(m)):
                need(bool(O[i, j]) == (i == j or sh(i, j)), "overlap iff a source copy is shared", a=m[i], b=m[j])
                need(bool(nb_exists_shared_source(a[i, 1:-2], a[j, 1:-2])) == sh(i, j), "a shared source copy", a=m[i], b=m[j])


def gen_fac(rng, tier):
    for P in scen.stream(rng, 80):
        yield dict(P=P, seed=rng.randrange(10**6), n=15)


def run_fac(c):
    rng = random.Random(c["seed"])
    P = c["P"]
    r = Ref(P)
    prob = scen.problem(P)
    ops = [tuple(int(x) for x in o) for o in prob._lexorder]
    multi = 0
    for _ in range(c["n"]):
        k = rng.randint(0, 6)
        pool = [rng.randrange(len(ops)) for _ in range(rng.randint(1, 6))]
        w = [rng.choice(pool) for _ in range(k)] if rng.random() < .6 else [rng.randrange(len(ops)) for _ in range(k)]
        a = np.array(w, dtype=np.intc)
        b = a.copy()
        want = sorted(tuple(w[i] for i in p) for p in parts(k, lambda i, j: w[i] == w[j] or r.share(ops[w[i]], ops[w[j]]))) if k else []
        multi += len(want) > 1
        for canon in (False, True):
            got = prob.factorize_monomial_1d(a, canonical_order=canon)
            got = [tuple(int(x) for x in f) for f in got]
            need(sorted(g for g in got if g) == want, "each factor is one linked piece in its original order", monomial=[ops[x] for x in w], got=[[ops[x] for x in f] for f in got])
            need((a == b).all(), "the monomial is not modified")
        if k:
            g2 = prob.factorize_monomial_2d(np.array([ops[x] for x in w], dtype=prob._np_dtype))
            need(sorted(tuple(prog.rows(f)) for f in g2) == sorted(tuple(ops[x] for x in f) for f in want), "array form factorises alike", monomial=[ops[x] for x in w])
            p = w[:]
            rng.shuffle(p)
            f1 = [tuple(map(int, f)) for f in prob.factorize_monomial_1d(np.array(sorted(w), dtype=np.intc), canonical_order=True)]
            f2 = {tuple(sorted(map(int, f))) for f in prob.factorize_monomial_1d(np.array(p, dtype=np.intc), canonical_order=True)}
            need({tuple(sorted(f)) for f in f1} == f2, "the split does not depend on the order", monomial=[ops[x] for x in w])
    return None if multi else "trivial"


# the factors of moments inside programs
def gen_mom(rng, tier):
    for P in prog.stream_sdp(rng, 12):
        yield dict(P=P, kind="sdp", seed=rng.randrange(10**6))
        if prog.lp_size(P, 250) <= 250:
            yield dict(P=P, kind="lp", seed=rng.randrange(10**6))


def orbit(r, ops):
    return {tuple(sorted(g(o) for o in ops)) for g in r.relabelings()}


def run_mom(c):
    rng = random.Random(c["seed"])
    P = c["P"]
    r = Ref(P)
    if c["kind"] == "lp":
        lp = prog.lp(P)
        mons = [(m, prog.rows(lp._lexorder[np.flatnonzero(v)])) for m, v in zip(lp.monomials, lp._monomials_as_lexboolvecs)]
    else:
        s = prog.sdp(P, "npa1")
        mons = [(s.compmoment_from_idx[i], prog.rows(s._lexorder[np.asarray(l)])) for i, l in s.symmetrized_corresp.items()]
    n = 0
    rng.shuffle(mons)
    for m, ops in mons[:60]:
        if not ops:
            continue
        want = [[ops[i] for i in p] for p in parts(len(ops), lambda i, j: ops[i] == ops[j] or r.share(ops[i], ops[j]))]
        n += len(want) > 1
        got = [prog.rows(f.as_2d_array) for f in m.factors]
        need(len(got) == len(want), "as many factors as linked pieces", moment=str(m), want=want, got=got)
        for f in got:
            need(len(parts(len(f), lambda i, j: f[i] == f[j] or r.share(f[i], f[j]))) == 1, "no factor splits further", factor=f)
        # every piece is one of the factors up to relabeling (and reversal: operators as a set)
        left = list(got)
        for p in want:
            o = orbit(r, p)
            k = next((i for i, f in enumerate(left) if tuple(sorted(f)) in o), None)
            need(k is not None, "every piece appears as a factor", moment=str(m), piece=p, factors=got)
            left.pop(k)
    return None if n else "trivial"


GROUPS = {"graph": (gen_graph, run_graph), "components": (gen_comp, run_comp), "factorise": (gen_fac, run_fac), "moments": (gen_mom, run_mom)}
WEIGHTS = {"graph": 1, "components": 1, "factorise": 2, "moments": 2}


def warmup():
    run_graph(dict(n=2, edges=[]))
    run_comp(dict(ns=1, m=[[1, 1, 0, 0], [2, 1, 0, 0]]))
