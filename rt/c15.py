"""C15: clique enumeration."""
from .base import *
from . import scen
from itertools import combinations
import numpy as np


def gen(rng, tier):
    # all graphs on up to four vertices, diagonal set as the library has it
    for n in range(0, 5):
        pairs = list(combinations(range(n), 2))
        for m in range(1 << len(pairs)):
            for mx in ([0] if n > 3 else [0, 1, 2]):
                yield dict(n=n, e=[list(p) for i, p in enumerate(pairs) if m >> i & 1], max_n=mx, iso=True)
    # more vertices than fit a byte, and large cliques
    n = 300
    yield dict(n=n, e=[[0, 1], [0, 299], [298, 299], [255, 256], [1, 257], [0, 257]], max_n=0, iso=True)
    yield dict(n=n, e=[list(p) for p in combinations([3, 130, 255, 256, 257, 299], 2)], max_n=0, iso=True)
    for n in (10, 13, 15):
        yield dict(n=n, e=[list(p) for p in combinations(range(n), 2) if p != (0, n - 1)], max_n=0, iso=True)
    while True:
        n = rng.randint(1, 9)
        d = rng.choice([.2, .5, .7, .9, 1])
        e = [list(p) for p in combinations(range(n), 2) if rng.random() < d]
        yield dict(n=n, e=e, max_n=rng.choice([0, 0, 0, 1, 2, 3, -1, n]), iso=rng.random() < .8, diag=rng.random() < .8, dt=rng.choice(["bool", "int"]))


def run(c):
    from inflation.utils import all_and_maximal_cliques
    n, mx = c["n"], c["max_n"]
    A = np.zeros((n, n), dtype=bool if c.get("dt", "bool") == "bool" else int)
    for i, j in c["e"]:
        A[i, j] = A[j, i] = True
    if c.get("diag", True):
        np.fill_diagonal(A, True)
    B = A.copy()
    cl, mxl = all_and_maximal_cliques(A, max_n=mx, isolate_maximal=c["iso"])
    need(np.array_equal(A, B), "the graph is not modified")
    if n > 20:
        return sparse(c, A, cl, mxl)
    adj = [[bool(A[i, j]) for j in range(n)] for i in range(n)]
    cap = n if mx <= 0 else min(n, mx)
    want = {s for k in range(cap + 1) for s in combinations(range(n), k) if all(adj[a][b] for a, b in combinations(s, 2))}
    got = [tuple(sorted(int(x) for x in q)) for q in cl]
    need(len(got) == len(set(got)), "no clique is listed twice")
    need(all(len(set(q)) == len(q) for q in cl), "no vertex is repeated in a clique")
    need(set(got) == want, "exactly the sets of pairwise compatible vertices up to the size asked for", extra=sorted(set(got) - want)[:3], missing=sorted(want - set(got))[:3])
    if c["iso"] and n:
        big = {s for s in want if s and not any(all(adj[v][x] for x in s) for v in range(n) if v not in s)}
        g = [tuple(sorted(int(x) for x in q)) for q in mxl]
        need(len(g) == len(set(g)) and set(g) == big, "exactly the cliques no further vertex extends are maximal", got=g, want=sorted(big))
    return "trivial" if n < 2 else None


def sparse(c, A, cl, mxl):
    """few edges: the cliques grown vertex by vertex"""
    n = c["n"]
    nb = [{j for j in range(n) if j != i and A[i, j]} for i in range(n)]
    want, last = {()}, [()]
    while last:
        last = [q + (v,) for q in last for v in (range(n) if not q else sorted(nb[q[-1]])) if not q or v > q[-1] and all(v in nb[x] for x in q)]
        want |= set(last)
    got = [tuple(sorted(int(x) for x in q)) for q in cl]
    need(len(got) == len(set(got)), "no clique is listed twice")
    need(set(got) == want, "exactly the sets of pairwise compatible vertices up to the size asked for", extra=sorted(set(got) - want)[:3], missing=sorted(want - set(got))[:3])
    big = {s for s in want if s and not set.intersection(*(nb[x] for x in s))}
    g = [tuple(sorted(int(x) for x in q)) for q in mxl]
    need(len(g) == len(set(g)) and set(g) == big, "exactly the cliques no further vertex extends are maximal", extra=sorted(set(g) - big)[:3], missing=sorted(big - set(g))[:3])


def gen_t(rng, tier):
    for P in scen.stream(rng, 16):
        yield dict(P=P, max_n=rng.choice([0, 0, 0, 2, 3]))


def run_t(c):
    from .ref import Ref
    P = c["P"]
    r = Ref(P)
    prob = scen.problem(P)
    ops = [tuple(int(x) for x in o) for o in prob._lexorder]
    t = [ops[int(i)] for i in prob._template_idxs]
    n = len(t)
    if n > 10:
        raise Skip("large")
    cl, mxl = prob.all_and_maximal_compatible_templates(max_n=c["max_n"])
    cap = n if c["max_n"] <= 0 else min(n, c["max_n"])
    want = {s for k in range(cap + 1) for s in combinations(range(n), k) if all(r.commute(t[a], t[b]) for a, b in combinations(s, 2))}
    got = [tuple(sorted(int(x) for x in q)) for q in cl]
    need(len(got) == len(set(got)) and set(got) == want, "compatible sets of measurements", extra=sorted(set(got) - want)[:3], missing=sorted(want - set(got))[:3])
    if True:
        big = {s for s in want if s and not any(all(r.commute(t[v], t[x]) for x in s) for v in range(n) if v not in s)}
        g = [tuple(sorted(int(x) for x in q)) for q in mxl]
        need(len(g) == len(set(g)) and set(g) == big, "maximal compatible sets", got=g, want=sorted(big))


GROUPS = {"graphs": (gen, run), "templates": (gen_t, run_t)}
WEIGHTS = {"graphs": 3}
