"""C08: derived equalities and inequalities hold for every genuine behaviour, and suffice on commuting scenarios."""
from .base import *
from . import scen, prog
from .ref import Ref
from .model import CModel, QModel, quantum_ok, value
import numpy as np
from itertools import product

TOL = 1e-7


def models(P, seed, n=2):
    out = [CModel(P, seed + i, 2 + i % 2) for i in range(n)]
    if quantum_ok(P):
        out.append(QModel(P, seed))
    return out


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 300):
        yield dict(P=P, seed=rng.randrange(10**6), kw=rng.choice([{}, {}, {"include_all_outcomes": True}, {"supports_problem": True}]))


def named(s, row):
    return {str(s.monomials[j]): float(row[j]) for j in np.flatnonzero(row)}


def operators(x):
    return [tuple(int(a) for a in o) for o in x]


def run_lp(c):
    P = c["P"]
    r = Ref(P)
    s = prog.lp(P, **c["kw"])
    E = s.minimal_sparse_equalities.tocsr()
    I = s.minimal_sparse_inequalities.tocsr()
    D = s.moment_equalities if E.shape[0] else []
    for m in models(P, c["seed"]):
        v = [value(mon, m) for mon in s.monomials]
        if any(x is None for x in v):
            continue
        v = np.array([complex(x) for x in v])
        need(abs(v.imag).max() < TOL, "moments of commuting operators are real")
        v = v.real
        # every column of the program carries the moment of each event identified with it
        for i, b in enumerate(s._raw_monomials_as_lexboolvecs):
            w = m.moment(operators(s._lexorder[b]))
            if w is not None:
                need(abs(w - v[s.inverse[i]]) < TOL, "events identified with one variable have the same probability", event=operators(s._lexorder[b]), got=v[s.inverse[i]], want=w)
        if E.shape[0]:
            d = E @ v
            need(abs(d).max() < TOL, "equality violated by a genuine behaviour", row=named(s, E.toarray()[int(abs(d).argmax())]), value=abs(d).max())
        if I.shape[0]:
            d = I @ v
            need(d.min() > -TOL, "inequality violated by a genuine behaviour", row=named(s, I.toarray()[int(d.argmin())]), value=d.min())
        by = dict(zip(s.monomials, v))
        for e in D:
            need(abs(sum(k * by[x] for x, k in e.items())) < TOL, "equality (as dictionary) violated by a genuine behaviour", eq={str(k): float(x) for k, x in e.items()})
        for e in s.moment_inequalities:
            need(sum(k * by[x] for x, k in e.items()) > -TOL, "inequality (as dictionary) violated by a genuine behaviour", ineq={str(k): float(x) for k, x in e.items()})
    return "trivial" if I.shape[0] < 2 else None


def expand(event, groups, full):
    """the event (one operator per group) as a signed sum of products over operators the program keeps
    (`full[g]`: all outcomes are kept; otherwise the last one is 1 - the others)"""
    terms = [(1, ())]
    for op, g, f in zip(event, groups, full):
        if f or op != g[-1]:
            alt = [(1, (op,))]
        else:
            alt = [(1, ())] + [(-1, (o,)) for o in g[:-1]]
        terms = [(a * b, t + u) for a, t in terms for b, u in alt]
    return terms


def gen_suff(rng, tier):
    for P in prog.stream_lp(rng, 300):
        yield dict(P=P, seed=rng.randrange(10**6), kw=rng.choice([{}, {}, {"include_all_outcomes": True}, {"default_non_negative": False}]))


def run_suff(c):
    """smallest value of the probability of a joint outcome, over everything the constraints allow"""
    from scipy.optimize import linprog
    P = c["P"]
    r = Ref(P)
    s = prog.lp(P, **c["kw"])
    rng = random.Random(c["seed"])
    lex = {o: i for i, o in enumerate(operators(s._lexorder))}
    E, I = s.minimal_sparse_equalities.tocsr(), s.minimal_sparse_inequalities.tocsr()
    n = s.n_columns
    lib_ops = operators(s._lexorder)
    kept = {o for b in s._raw_monomials_as_lexboolvecs for o in (lib_ops[i] for i in np.flatnonzero(b))}
    # measurements, and a random maximal set of compatible ones
    t = sorted({o[:-1] for o in r.operators()})
    rng.shuffle(t)
    clique = []
    for x in t:
        if all(not r.quantum or r.commute(x + (0,), y + (0,)) for y in clique):
            clique.append(x)
    if np.prod([float(r.out[x[0] - 1]) for x in clique]) > 400:
        raise Skip("large")
    groups = [[x + (a,) for a in range(r.out[x[0] - 1])] for x in clique]
    full = [all(o in kept for o in g) for g in groups]

    def row(terms):
        a = np.zeros(n)
        for k, ops in terms:
            mon = s.Monomial(np.array(sorted(lex[o] for o in ops), dtype=int))
            need(mon in s.compmonomial_to_idx, "the joint event of compatible measurements is a variable", event=ops)
            a[s.compmonomial_to_idx[mon]] += k
        return a
    events = list(product(*groups))
    rowsP = {e: row(expand(e, groups, full)) for e in events}
    e0 = np.zeros(n)
    e0[s.compmonomial_to_idx[s.One]] = 1
    Aeq = np.vstack([E.toarray(), e0[None]])
    beq = np.zeros(len(Aeq))
    beq[-1] = 1
    lb = 0 if s.default_non_negative else None

    def opt(obj):
        q = linprog(obj, A_ub=-I.toarray() if I.shape[0] else None, b_ub=np.zeros(I.shape[0]) if I.shape[0] else None, A_eq=Aeq, b_eq=beq, bounds=[(lb, None)] * n, method="highs")
        need(q.status in (0, 3), "the normalisation and positivity constraints have a solution", status=q.message)
        return -np.inf if q.status == 3 else q.fun
    for e in rng.sample(events, min(3, len(events))):
        lo = opt(rowsP[e])
        need(lo > -1e-6, "the constraints allow a negative probability", event=e, lowest=lo)
    tot = sum(rowsP.values())
    need(abs(opt(tot) - 1) < 1e-6 and abs(opt(-tot) + 1) < 1e-6, "the joint distribution is normalised", measurements=clique)
    # marginals of the joint distribution are the variables of the smaller events
    for _ in range(2):
        sub = [rng.choice(g) if rng.random() < .5 else None for g in groups]
        part = [(o, g, f) for o, g, f in zip(sub, groups, full) if o is not None]
        target = row(expand([x[0] for x in part], [x[1] for x in part], [x[2] for x in part]))
        m = sum((rowsP[e] for e in events if all(o is None or o == x for o, x in zip(sub, e))), np.zeros(n)) - target
        need(abs(opt(m)) < 1e-6 and abs(opt(-m)) < 1e-6, "marginals of the joint distribution are the moments of the smaller events", event=[x[0] for x in part])
    return "trivial" if len(groups) < 2 else None


def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 18, nonnet=True):
        yield dict(P=P, spec="npa1" if scen.nops(P) > 7 or rng.random() < .3 else "npa2", seed=rng.randrange(10**6),
                   kw=rng.choice([{}, {}, {"include_all_outcomes": True}, {"supports_problem": True}]))


def run_sdp(c):
    P = c["P"]
    s = prog.sdp(P, c["spec"], **c["kw"])
    for m in models(P, c["seed"]):
        v = {mon: value(mon, m) for mon in s.moments}
        if any(x is None for x in v.values()):
            continue
        for e in s.minimal_equalities:
            d = sum(k * v[x].real for x, k in e.items())
            need(abs(d) < TOL, "equality violated by a genuine behaviour", eq={str(k): float(x) for k, x in e.items()}, value=d)
        for e in s.minimal_inequalities:
            d = sum(k * v[x].real for x, k in e.items())
            need(d > -TOL, "inequality violated by a genuine behaviour", ineq={str(k): float(x) for k, x in e.items()}, value=d)
        for x, b in s.moment_lowerbounds.items():
            need(v[x].real > b - TOL, "lower bound violated by a genuine behaviour", moment=str(x), bound=b, value=v[x])
        for x, b in s.moment_upperbounds.items():
            need(v[x].real < b + TOL, "upper bound violated by a genuine behaviour", moment=str(x), bound=b, value=v[x])
    if not s.network_scenario or s.supports_problem:
        lex = operators(s._lexorder)
        G = s.generating_monomials_1d
        for norm, cols in s.column_level_equalities:
            for m in models(P, c["seed"] + 7, 1):
                for i in range(0, len(G), 1 + len(G) // 12):
                    left = [lex[int(k)] for k in G[i][::-1]]
                    w = [m.moment(left + [lex[int(k)] for k in G[j]]) for j in [norm] + list(cols)]
                    if any(x is None for x in w):
                        continue
                    need(abs(w[0] - sum(w[1:])) < TOL, "column equality violated by a genuine behaviour", column=G[norm], sum=[G[j].tolist() for j in cols], left=left)
        for norm, idxs in s.idx_level_equalities:
            need(norm in s.compmoment_from_idx and all(i in s.compmoment_from_idx for i in idxs), "equalities are among the program's moments")
    return None if s.minimal_equalities or s.moment_lowerbounds else "trivial"


def gen_exp(rng, tier):
    while True:
        P = scen.rand(rng, 20, nonnet=True)
        lex = Ref(P).operators()
        k = rng.randint(1, 4)
        yield dict(P=P, mon=[list(rng.choice(lex)) for _ in range(k)], ce=[rng.random() < .5 for _ in range(5)], seed=rng.randrange(10**6))


def run_exp(c):
    from inflation.sdp.quantum_tools import expand_moment_normalisation
    P = c["P"]
    r = Ref(P)
    mon = np.array(c["mon"], dtype=np.uint8)
    has = np.array(c["ce"][:r.nparties])
    eqs = expand_moment_normalisation(mon.copy(), np.array(r.out) + 1, has)
    for m in models(P, c["seed"], 1):
        for lhs, rhs in eqs:
            a = m.moment(operators(lhs)) if len(lhs) else 1.
            b = [m.moment(operators(x)) if len(x) else 1. for x in rhs]
            if a is None or any(x is None for x in b):
                continue
            need(abs(a - sum(b)) < TOL, "expansion of a last-outcome moment", lhs=operators(lhs), rhs=[operators(x) for x in rhs], got=sum(b), want=a)


GROUPS = {"lp": (gen_lp, run_lp), "sufficient": (gen_suff, run_suff), "sdp": (gen_sdp, run_sdp), "expand": (gen_exp, run_exp)}
WEIGHTS = {"lp": 2, "sufficient": 2, "sdp": 3, "expand": .3}
