"""C01: canonical form of operator products."""
from .base import *
from . import scen
from .ref import Ref, trace_class, canonical
import numpy as np


def sym(k, rng, dens):
    N = [[False] * k for _ in range(k)]
    for a in range(k):
        for b in range(a):
            N[a][b] = N[b][a] = rng.random() < dens
    return N


def gen_words(rng, tier):
    from itertools import product
    # exhaustive: three letters, all relations, all words up to length 4
    for bits in range(8):
        N = [[False] * 3 for _ in range(3)]
        for q, (a, b) in enumerate([(0, 1), (0, 2), (1, 2)]):
            N[a][b] = N[b][a] = bool(bits >> q & 1)
        yield dict(N=N, words=[list(w) for l in range(5) for w in product(range(3), repeat=l)])
    while True:
        k = rng.randint(3, 6)
        N = sym(k, rng, rng.choice([.2, .4, .5, .7, .9]))
        yield dict(N=N, words=[[rng.randrange(k) for _ in range(rng.randint(2, 7))] for _ in range(25)])


def run_words(c):
    from inflation.sdp.fast_npa import nb_lexmon_to_canonical
    N = c["N"]
    M = np.array(N, dtype=bool)
    for w in c["words"]:
        a = np.array(w, dtype=np.intc)
        got = nb_lexmon_to_canonical(a, M)
        need(a.tolist() == w, "the argument is not modified", word=w)
        got = tuple(int(x) for x in got)
        want = min(trace_class(w, lambda x, y: not N[x][y])) if w else ()
        need(got == tuple(want), "least arrangement reachable by swapping commuting neighbours", word=w, notcomm=N, got=got, want=want)
        again = tuple(int(x) for x in nb_lexmon_to_canonical(np.array(got, dtype=np.intc), M))
        need(again == got, "canonicalising twice changes nothing", word=w, notcomm=N)


# full reduction with projectors and orthogonality in a real scenario
def gen_red(rng, tier):
    for P in scen.stream(rng, 40):
        yield dict(P=P, seed=rng.randrange(10**6), n=25)


def run_red(c):
    from inflation import InflationSDP
    from inflation.sdp.fast_npa import to_canonical_1d_internal, lexmon_is_zero, remove_projector_squares
    rng = random.Random(c["seed"])
    P = c["P"]
    r = Ref(P)
    sdp = InflationSDP(scen.problem(P))
    ops = [tuple(int(x) for x in o) for o in sdp._lexorder]
    k = len(ops)
    com = lambda a, b: r.commute(ops[a], ops[b])
    ort = lambda a, b: r.orthogonal(ops[a], ops[b])
    notcomm, ortho = np.asarray(sdp._notcomm), np.asarray(sdp._orthomat)
    allc = bool(sdp.all_operators_commute)
    for _ in range(c["n"]):
        # words over few letters, so that squares, zeros and swaps occur
        pool = rng.sample(range(1, k), min(k - 1, rng.randint(1, 4)))
        if rng.random() < .5 and k > 3:
            a = rng.randrange(1, k - 1)
            pool += [b for b in range(1, k) if ort(a, b)][:1] + [a]
        w = [rng.choice(pool) for _ in range(rng.randint(1, 6))]
        want = canonical(w, com, ort)
        want = (0,) if want is None else want
        arr = np.array(w, dtype=np.intc)
        got = tuple(int(x) for x in to_canonical_1d_internal(arr, notcomm, ortho, allc, False))
        need(arr.tolist() == w, "the argument is not modified")
        desc = [ops[x] for x in w]
        need(got == want, "canonical form of a product of projectors", word=w, ops=desc, got=got, want=want)
        need(tuple(int(x) for x in to_canonical_1d_internal(np.array(got, dtype=np.intc), notcomm, ortho, allc, False)) == got, "canonicalising twice changes nothing", word=w)
        if len(w) > 1:
            onlyc = tuple(int(x) for x in to_canonical_1d_internal(np.array(w, dtype=np.intc), notcomm, ortho, allc, True))
            need(onlyc == min(trace_class(w, com)), "rearrangement only", word=w, ops=desc, got=onlyc)
        fresh = tuple(int(x) for x in sdp._to_canonical_memoized_1d(np.array(w, dtype=np.intc)))
        need(fresh == want, "memoised canonical form", word=w, ops=desc, got=fresh, want=want)
        # any word reachable by swaps has the same canonical form
        cls = sorted(trace_class(w, com))
        v = cls[rng.randrange(len(cls))]
        need(tuple(int(x) for x in sdp._to_canonical_memoized_1d(np.array(v, dtype=np.intc))) == want, "equivalent products have equal canonical forms", a=w, b=v)
        # orthogonality and squares, directly
        z = any(ort(x, y) for x, y in zip(w, w[1:]))
        need(bool(lexmon_is_zero(np.array(w, dtype=np.intc), ortho)) == z, "zero iff two neighbours are orthogonal", word=w)
        sq = [x for i, x in enumerate(w) if i == 0 or w[i - 1] != x]
        need(remove_projector_squares(np.array(w, dtype=np.intc)).tolist() == sq, "squares of neighbours are removed", word=w)
        ad = tuple(int(x) for x in sdp._to_canonical_memoized_1d(np.array(w[::-1], dtype=np.intc)))
        adw = canonical(w[::-1], com, ort)
        need(ad == ((0,) if adw is None else adw), "canonical form of the adjoint", word=w)
    return "trivial" if k < 3 else None


# products in linear programs of commuting scenarios
def gen_2d(rng, tier):
    for P in scen.stream(rng, 30):
        yield dict(P=P, seed=rng.randrange(10**6))


def run_2d(c):
    from inflation import InflationSDP
    from inflation.sdp.fast_npa import reverse_mon, dot_mon, nb_mon_to_lexrepr, nb_all_commuting_q, nb_lexorder_idx
    rng = random.Random(c["seed"])
    r = Ref(c["P"])
    sdp = InflationSDP(scen.problem(c["P"]))
    ops = [tuple(int(x) for x in o) for o in sdp._lexorder]
    k = len(ops)
    L = np.asarray(sdp._lexorder)
    for _ in range(15):
        w = [rng.randrange(1, k) for _ in range(rng.randint(1, 5))]
        v = [rng.randrange(1, k) for _ in range(rng.randint(0, 4))]
        W, V = L[w], L[v]
        need(sdp.mon_to_lexrepr(W).tolist() == w, "ranks of a product", ops=W)
        need(nb_mon_to_lexrepr(W, L).tolist() == w, "ranks of a product", ops=W)
        need(int(nb_lexorder_idx(L[w[0]], L)) == w[0], "rank of an operator", op=L[w[0]])
        need(reverse_mon(W).tolist() == W[::-1].tolist(), "the adjoint reverses the product", ops=W)
        need(dot_mon(W, V).tolist() == W[::-1].tolist() + V.tolist(), "adjoint of the first times the second", a=W, b=V)
        ac = all(r.commute(ops[a], ops[b]) for a in w for b in w)
        need(bool(nb_all_commuting_q(W, L, np.asarray(sdp._notcomm))) == ac, "all factors commute", ops=W)
        # the moment of a product is the moment of its canonical form
        want = canonical(w, lambda a, b: r.commute(ops[a], ops[b]), lambda a, b: r.orthogonal(ops[a], ops[b]))
        m1 = sdp._sanitise_moment(W)
        m2 = sdp.Zero if want is None else sdp._sanitise_moment(L[list(want)])
        need(m1 is m2 or m1 == m2, "a product and its canonical form are the same moment", ops=W, canonical=want)
        need((want is None) == bool(m1.is_zero), "zero moments are those of vanishing products", ops=W)


GROUPS = {"words": (gen_words, run_words), "reduction": (gen_red, run_red), "moments": (gen_2d, run_2d)}
