"""C05: inflation symmetries are exactly the relabelings of source copies."""
from .base import *
from . import scen, prog
from .ref import Ref, trace_class
import numpy as np
from itertools import permutations


# ---------------------------------------------------------------- kernels
def gen_kernel(rng, tier):
    while True:
        k = rng.choice(["format", "combine", "apply", "reduce", "matrix", "matrix"])
        c = dict(kind=k)
        if k == "format":
            n = rng.randint(1, 5)
            c["perms"] = [rng.sample(range(n), n) for _ in range(rng.randint(1, 4))]
        elif k == "combine":
            n = rng.randint(1, 6)
            c["old"] = [rng.sample(range(n), n) for _ in range(rng.randint(1, 4))]
            c["new"] = [rng.sample(range(n), n) for _ in range(rng.randint(1, 4))]
        elif k == "apply":
            ns = rng.randint(1, 3)
            lv = rng.randint(1, 4)
            c["m"] = [[rng.randint(1, 3)] + [rng.randint(0, lv) for _ in range(ns)] + [rng.randint(0, 4), rng.randint(0, 4)] for _ in range(rng.randint(0, 5))]
            c["ns"], c["src"], c["perm"] = ns, rng.randrange(ns), [0] + rng.sample(range(1, lv + 1), lv)
        elif k == "reduce":
            ns = rng.randint(1, 3)
            c["m"] = [[rng.randint(1, 3)] + [rng.choice([0, 1, 2, 3, 5, 9]) for _ in range(ns)] + [0, 0] for _ in range(rng.randint(1, 5))]
        else:
            n = rng.randint(1, 7)
            # a permutation group generated by a few generators
            gens = []
            for _ in range(rng.randint(0, 2)):
                p = list(range(n))
                if rng.random() < .6 and n > 1:
                    i, j = rng.sample(range(n), 2)
                    p[i], p[j] = p[j], p[i]
                else:
                    rng.shuffle(p)
                gens.append(p)
            G = {tuple(range(n))}
            todo = list(G)
            while todo and len(G) < 130:
                g = todo.pop()
                for h in gens:
                    x = tuple(g[i] for i in h)
                    if x not in G:
                        G.add(x)
                        todo.append(x)
            if len(G) >= 130:
                continue
            c["group"] = [list(g) for g in sorted(G)]
            # a matrix on which the group acts: equal entries are carried to equal entries
            pairs = [(i, j) for i in range(n) for j in range(i, n)]
            lab = {}
            cls = 0
            vals = {}
            split = rng.random()
            for (i, j) in pairs:
                if (i, j) not in vals:
                    o = {tuple(sorted((g[i], g[j]))) for g in G}
                    if rng.random() < split:
                        # trivially or jointly labelled orbit
                        for x in o:
                            vals[x] = ("o", cls)
                    else:
                        for x in o:
                            vals[x] = ("s",) + x
                    if rng.random() < .1 and not c.get("zero"):
                        for x in o:
                            vals[x] = ("z",)
                    cls += 1
            num, M = {("z",): 0}, [[0] * n for _ in range(n)]
            base = 1
            for (i, j) in pairs:
                v = vals[i, j]
                if v not in num:
                    num[v] = base
                    base += 1
                M[i][j] = M[j][i] = num[v]
            c["M"] = M
        yield c


def run_kernel(c):
    k = c["kind"]
    if k == "format":
        from inflation.utils import format_permutations
        got = np.asarray(format_permutations([tuple(p) for p in c["perms"]])).tolist()
        need(got == [[0] + [x + 1 for x in p] for p in c["perms"]], "permutations of copies 1..n keep zero fixed", perms=c["perms"], got=got)
    elif k == "combine":
        from inflation.utils import perm_combiner
        got = sorted(tuple(map(int, x)) for x in perm_combiner(np.array(c["old"]), np.array(c["new"])))
        want = sorted(tuple(o[i] for i in n) for o in c["old"] for n in c["new"])
        need(got == want, "all compositions, once per pair", old=c["old"], new=c["new"], got=got)
    elif k == "apply":
        from inflation.sdp.fast_npa import apply_source_perm
        a = np.array(c["m"], dtype=np.uint8).reshape((-1, c["ns"] + 3))
        b = a.copy()
        got = np.asarray(apply_source_perm(a, c["src"], np.array(c["perm"])))
        want = [[x if i != 1 + c["src"] else c["perm"][x] for i, x in enumerate(o)] for o in c["m"]]
        need(got.tolist() == want, "exactly the copies of one source are renamed", monomial=c["m"], got=got)
        need((a == b).all(), "the monomial is not modified")
    elif k == "reduce":
        from inflation.sdp.quantum_tools import reduce_inflation_indices
        m = c["m"]
        got = np.asarray(reduce_inflation_indices(np.array(m, dtype=np.uint8))).tolist()
        want = [list(o) for o in m]
        for s in range(len(m[0]) - 3):
            u = sorted({o[1 + s] for o in m} - {0})
            for o in want:
                if o[1 + s]:
                    o[1 + s] = 1 + u.index(o[1 + s])
        need(got == want, "copies are renamed in order to 1..k", monomial=m, got=got)
    else:
        from inflation.sdp.quantum_tools import apply_inflation_symmetries
        M = np.array(c["M"], dtype=np.uint32)
        n = len(M)
        G = c["group"]
        syms = np.array([g for g in G if g != list(range(n))], dtype=int).reshape((-1, n))
        B = M.copy()
        mm, orbits, reps = apply_inflation_symmetries(M, syms)
        mm = np.asarray(mm)
        need((M == B).all(), "the matrix is not modified")
        # reference: union of values along the group action
        vals = sorted(set(B.ravel().tolist()))
        par = {v: v for v in vals}

        def find(v):
            while par[v] != v:
                v = par[v]
            return v
        for g in G:
            for i in range(n):
                for j in range(n):
                    a, b = find(int(B[i, j])), find(int(B[g[i], g[j]]))
                    par[max(a, b)] = min(a, b)
        for i in range(n):
            for j in range(n):
                need(int(orbits[int(B[i, j])]) == int(mm[i, j]), "the orbit table describes the matrix", M=c["M"])
        flat = [(find(int(B[i, j])), int(mm[i, j])) for i in range(n) for j in range(n)]
        need(len(set(flat)) == len({x for x, _ in flat}) == len({y for _, y in flat}), "entries are identified iff a symmetry carries one to the other", M=c["M"], group=G, got=mm)
        need(((mm == 0) == (B == 0)).all() or not (B == 0).any(), "zero stays zero", M=c["M"], got=mm)
        reps = [int(x) for x in np.asarray(reps)]
        # without symmetries all values up to the maximum are listed, absent zero included
        need(len({find(x) for x in reps if x in par}) == len([x for x in reps if x in par]) == len({find(v) for v in vals}), "one representative of each orbit", M=c["M"], reps=reps)


# ------------------------------------------------ symmetries of the scenario
MANY = [dict(dag={"h": ["A"]}, outcomes_per_party=[2], settings_per_party=[1], inflation_level_per_source=[4]),
        dict(dag={"h": ["A"], "g": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[1, 1], inflation_level_per_source=[2, 4]),
        dict(dag={"h": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[2, 1], inflation_level_per_source=[5]),
        dict(dag={"h": ["A"], "g": ["B"]}, outcomes_per_party=[2, 2], settings_per_party=[1, 1], inflation_level_per_source=[4, 3])]


def gen_lex(rng, tier):
    for P in MANY:
        yield dict(P=P)
    for P in scen.stream(rng, 150):
        r = Ref(P)
        n = 1
        for l in r.levels:
            for i in range(2, l + 1):
                n *= i
        if n <= 300:
            yield dict(P=P)


def run_lex(c):
    P = c["P"]
    r = Ref(P)
    prob = scen.problem(P)
    ops = [tuple(int(x) for x in o) for o in prob._lexorder]
    ix = {o: i for i, o in enumerate(ops)}
    S = np.asarray(prob.lexorder_symmetries)
    got = sorted(tuple(int(x) for x in row) for row in S)
    want = sorted(tuple(ix[g(o)] for o in ops) for g in r.relabelings())
    need(set(got) == set(want), "the symmetries are exactly the relabelings of copies", missing=len(set(want) - set(got)), extra=len(set(got) - set(want)))
    need(got == want or len(set(want)) < len(want), "each relabelling is listed once")
    need([int(x) for x in S[0]] == list(range(len(ops))), "the first symmetry is the identity")
    s = prog.sdp0(P)
    T = np.asarray(s.lexorder_symmetries)
    need((T[:, 0] == 0).all() and (T[:, 1:] == S + 1).all(), "the relaxation uses the same symmetries")
    lp = None
    return "trivial" if len(want) == 1 else None


# ------------------------------------------------------ identified moments
def gen_atoms(rng, tier):
    for P in scen.stream(rng, 40):
        r = Ref(P)
        if max(r.levels) > 1:
            yield dict(P=P, seed=rng.randrange(10**6), n=12)


def shuffle_commuting(rng, w, com):
    w = list(w)
    for _ in range(2 * len(w)):
        if len(w) > 1:
            i = rng.randrange(len(w) - 1)
            if com(w[i], w[i + 1]):
                w[i], w[i + 1] = w[i + 1], w[i]
    return w


def run_atoms(c):
    rng = random.Random(c["seed"])
    P = c["P"]
    r = Ref(P)
    s1, s2 = prog.sdp0(P), prog.sdp0(P)
    ops = r.operators()
    com = r.commute
    rel = list(r.relabelings())
    if len(rel) > 40:
        raise Skip("large group")
    cls_of = {}
    words = []
    for _ in range(c["n"]):
        pool = [rng.choice(ops) for _ in range(rng.randint(1, 3))]
        if rng.random() < .5:
            pool += [rng.choice(rel)(pool[0])]
        w = [rng.choice(pool) for _ in range(rng.randint(1, 4))]
        words.append(w)
        words.append(shuffle_commuting(rng, [rng.choice(rel)(o) for o in w] if rng.random() < .2 else (lambda g: [g(o) for o in w])(rng.choice(rel)), com))
    from .ref import canonical
    for s, order in ((s1, words), (s2, words[::-1])):
        for w in order:
            k = canonical(w, com, r.orthogonal)
            if k is None or len(r.components(list(k))) > 1 or len(k) > 5:
                continue
            key = min(min(trace_class([g(o) for o in k], com)) for g in rel)
            can = s._to_canonical_memoized_1d(s.mon_to_lexrepr(np.array(w, dtype=s.np_dtype)))
            a = s._AtomicMonomial(can)
            got = tuple(prog.rows(a.as_2d_array))
            mine = min(min(trace_class([g(o) for o in got], com)) for g in rel)
            need(mine == key, "the representative is one of the identified moments", moment=list(k), got=got)
            if key in cls_of:
                need(cls_of[key] == got, "the representative does not depend on where one starts", moment=list(k), one=cls_of[key], other=got)
            cls_of[key] = got
    need(len(set(cls_of.values())) == len(cls_of), "moments are identified only by relabelings")


# -------------------------------------------------- orbits inside programs
def some_columns(rng, P):
    """a list of generating monomials: some products and some of their relabelings"""
    from .ref import canonical
    r = Ref(P)
    ops, rel = r.operators(), list(r.relabelings())
    cg = [o for o in ops if o[-1] != r.out[o[0] - 1] - 1]
    key = {o: i for i, o in enumerate(ops)}
    cols = []
    for _ in range(rng.randint(1, 3)):
        w = [rng.choice(cg) for _ in range(rng.randint(1, 4))]
        new = []
        for g in (rel if rng.random() < .8 else rng.sample(rel, min(len(rel), 3))):
            k = canonical([g(o) for o in w], r.commute, r.orthogonal)
            if k and len(k) <= 4:
                c = min(trace_class(k, r.commute), key=lambda m: [key[o] for o in m])
                if c not in cols and c not in new:
                    new.append(c)
        if len(cols) + len(new) <= 24:
            cols += new
    singles = sorted({g(o) for c in cols for o in c for g in rel}, key=lambda o: key[o])
    cols = [()] + [(o,) for o in singles] + [c for c in cols if len(c) > 1]
    return [list(map(list, c)) for c in cols]


def gen_cols(rng, tier):
    for P in prog.stream_sdp(rng, 20):
        if max(Ref(P).levels) > 1:
            yield dict(P=P, cols=some_columns(rng, P))


def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 14):
        r = Ref(P)
        if max(r.levels) > 1:
            yield dict(P=P, spec="npa1" if scen.nops(P) > 8 or rng.random() < .7 else "npa2")
            if rng.random() < .3:
                yield dict(P=P, spec="local1")


def sorted_lex(s, w):
    return s._to_canonical_memoized_1d(np.array(w, dtype=np.intc)) if len(w) else w


def run_sdp(c):
    P = c["P"]
    r = Ref(P)
    if "cols" in c:
        s = prog.sdp0(P)
        rank = {tuple(int(x) for x in o): i for i, o in enumerate(s._lexorder)}
        have = {min(trace_class(tuple(map(tuple, m)), r.commute)) for m in c["cols"]}
        whole = all(min(trace_class(tuple(g(tuple(o)) for o in m), r.commute)) in have for m in c["cols"] for g in r.relabelings())
        try:
            s.generate_relaxation([np.array(sorted_lex(s, [rank[tuple(o)] for o in m]), dtype=np.intc) for m in c["cols"]])
        except AssertionError as e:
            if "Multiple indices" in str(e) and not whole:
                raise Skip("columns not closed under symmetry")
            raise
    else:
        s = prog.sdp(P, c["spec"])
    cols = [tuple(tuple(int(x) for x in o) for o in s._lexorder[np.asarray(m)]) for m in s.generating_monomials_1d]
    com = r.commute
    rel = list(r.relabelings())
    need(all(len(m) <= 6 for m in cols), "columns are short")
    norm = {}

    def nf(w):
        if w not in norm:
            norm[w] = min(trace_class(w, com))
        return norm[w]
    ix = {nf(m): i for i, m in enumerate(cols)}
    perms, closed = set(), True
    for g in rel:
        p = [ix.get(nf(tuple(g(o) for o in m))) for m in cols]
        if None in p:
            closed = False
        else:
            perms.add(tuple(p))
    got = {tuple(int(x) for x in p) for p in np.asarray(s.columns_symmetries)}
    ident = tuple(range(len(cols)))
    need(got == perms - {ident}, "column symmetries are the relabelings of the columns", extra=len(got - perms), missing=len(perms - got - {ident}))
    mm = np.asarray(s.momentmatrix)
    for p in perms:
        p = np.array(p)
        need((mm[np.ix_(p, p)] == mm).all(), "the moment matrix is invariant", perm=p)
    if not closed or len(cols) > 40:
        return
    # identified entries are related by a relabelling (up to commutation and adjoint)
    from .ref import canonical
    key, seen = {}, {}
    for i in range(len(cols)):
        for j in range(i, len(cols)):
            w = cols[i][::-1] + cols[j]
            if len(w) > 5:
                continue
            if w not in key:
                k = canonical(w, com, r.orthogonal)
                key[w] = None if k is None else min(min(nf(tuple(g(o) for o in x)) for g in rel) for x in (k, k[::-1]))
            k = key[w]
            v = int(mm[i, j])
            need((v == 0) == (k is None), "zero entries", i=cols[i], j=cols[j])
            if k is not None:
                need(seen.setdefault(k, v) == v, "related entries are identified", i=cols[i], j=cols[j])
    need(len(set(seen.values())) == len(seen), "unrelated entries are kept apart")


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 300):
        if max(Ref(P).levels) > 1:
            yield dict(P=P)


def run_lp(c):
    P = c["P"]
    r = Ref(P)
    lp = prog.lp(P)
    rel = list(r.relabelings())
    raw = [tuple(prog.rows(lp._lexorder[np.flatnonzero(v)])) for v in lp._raw_monomials_as_lexboolvecs]
    key = [min(tuple(sorted(g(o) for o in m)) for g in rel) for m in raw]
    inv = [int(x) for x in np.asarray(lp.inverse)]
    need(len(inv) == len(raw), "every event has an index")
    need(len(set(zip(key, inv))) == len(set(key)) == len(set(inv)) == lp.n_columns, "events share a variable iff a relabelling carries one to the other", n=lp.n_columns, orbits=len(set(key)))
    for m, i, k in zip(raw, inv, key):
        rep = tuple(prog.rows(lp._lexorder[np.flatnonzero(lp._monomials_as_lexboolvecs[i])]))
        need(min(tuple(sorted(g(o) for o in rep)) for g in rel) == k, "the variable of an event is its orbit", event=m, variable=rep)
        if len(m):
            M = lp.Monomial(np.array(sorted(lp.mon_to_lexrepr(np.array(m, dtype=lp.np_dtype)))))
            need(lp.compmonomial_to_idx.get(M) == i, "looking an event up gives the variable of its orbit", event=m)
    mx = [tuple(prog.rows(lp._lexorder[np.flatnonzero(v)])) for v in lp._maximal_event_as_lexboolvecs]
    rp = [tuple(prog.rows(lp._lexorder[np.flatnonzero(v)])) for v in lp._representative_maximal_events_as_lexboolvecs]
    k1 = {min(tuple(sorted(g(o) for o in m)) for g in rel) for m in mx}
    k2 = [min(tuple(sorted(g(o) for o in m)) for g in rel) for m in rp]
    need(sorted(k1) == sorted(k2), "one maximal event per orbit", got=len(k2), want=len(k1))
    return "trivial" if len(rel) == 1 else None


GROUPS = {"kernel": (gen_kernel, run_kernel), "lexorder": (gen_lex, run_lex), "atoms": (gen_atoms, run_atoms), "sdp": (gen_sdp, run_sdp), "columns": (gen_cols, run_sdp), "lp": (gen_lp, run_lp)}
WEIGHTS = {"kernel": 1, "lexorder": 1.5, "atoms": 2, "sdp": 2, "columns": 1.5, "lp": 1.5}
