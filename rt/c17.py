"""C17: named generating sets contain exactly the monomials they name."""
from .base import *
from . import scen, prog
from .ref import Ref, canonical
import numpy as np
from itertools import product, combinations_with_replacement, combinations


def operators(x):
    return [tuple(int(a) for a in o) for o in x]


class Ctx:
    def __init__(self, P, kw):
        from inflation import InflationSDP
        self.r = Ref(P)
        self.s = InflationSDP(scen.problem(P), **kw)
        self.ops = self.r.operators()
        self.all = kw.get("include_all_outcomes") or kw.get("supports_problem")
        lex = operators(self.s._lexorder)
        self.code = {o: i for i, o in enumerate(lex) if i}
        self.commute = (lambda a, b: True) if kw.get("commuting") or not self.r.quantum else self.r.commute
        # operators the generating sets are built from: the last outcome is left out unless somebody reads it
        ch = [any(p in q for q in self.r.parents) for p in range(self.r.nparties)]
        self.by = [[o for o in self.ops if o[0] == p + 1 and (self.all or ch[p] or o[-1] != self.r.out[p] - 1)] for p in range(self.r.nparties)]

    def words(self, block):
        return product(*[self.by[p] for p in block])

    def canon(self, w):
        c = canonical(w, self.commute, self.r.orthogonal)
        return None if c is None else tuple(self.code[o] for o in c)

    def block(self, block):
        out = set()
        for w in self.words(block):
            c = self.canon(w)
            if c is not None and len(c) == len(block):
                out.add(c)
        return out


def nwords(P, block, r):
    k = 1
    for p in block:
        k *= sum(1 for o in r.operators() if o[0] == p + 1)
    return k


SPECS = ["npa0", "npa1", "npa2", "npa2", "npa3", "NPA1", "local1", "local1", "local2", "localx", "physical", "physical1", "physical2", "physicalx", "blocks", "blocks"]


def gen(rng, tier):
    for P in scen.stream(rng, 20, maxparties=3, maxset=2):
        n = Ref(P).nparties
        sp = rng.choice(SPECS)
        if sp == "localx" or sp == "physicalx":
            sp = sp[:-1] + "".join(str(rng.randint(0, 2)) for _ in range(n))
            if n == 1 and len(sp.strip("localphysc")) == 0:
                continue
        elif sp == "blocks":
            sp = [sorted(rng.randrange(n) for _ in range(rng.randint(0, 3))) if rng.random() < .7 else [rng.randrange(n) for _ in range(rng.randint(0, 3))] for _ in range(rng.randint(1, 4))]
            if [] not in sp:
                sp = [[]] + sp
            sp = [list(x) for x in dict.fromkeys(map(tuple, sp))]
        yield dict(P=P, spec=sp, ml=rng.choice([0, 0, 0, 1, 2]), kw=rng.choice([{}, {}, {}, {"include_all_outcomes": True}, {"supports_problem": True}]))


def run(c):
    P, sp = c["P"], c["spec"]
    x = Ctx(P, c["kw"])
    r, s, n = x.r, x.s, x.r.nparties
    ml = c["ml"]
    if isinstance(sp, list):
        blocks = [list(b) for b in sp]
        ml = 0
    elif sp.lower().startswith("npa"):
        L = int(sp[3:])
        if 0 < ml < L:
            L = ml
        blocks = [list(b) for k in range(L + 1) for b in combinations_with_replacement(range(n), k)]
    else:
        phys = sp.startswith("physical")
        t = sp[8:] if phys else sp[5:]
        caps = [None] * n if t == "" else [int(a) for a in t] if len(t) == n else [int(t)] * n
        blocks = None
        if not phys:
            m = sum(caps)
            if 0 < ml < m:
                m = ml
            blocks = [sum([[p] * f[p] for p in range(n)], []) for f in product(*[range(k + 1) for k in caps]) if sum(f) <= m]
    if blocks is not None:
        if sum(nwords(P, b, r) for b in blocks) > 900:
            raise Skip("large")
        want = set().union(*[x.block(b) for b in blocks])
    else:
        # pairwise compatible operators of different measurements, at most so many per party
        meas = sorted({o[:-1] for p in x.by for o in p})
        want, stack = set(), [((), 0)]
        while stack:
            w, i = stack.pop()
            want.add(tuple(sorted(x.code[o] for o in w)))
            if len(want) > 900:
                raise Skip("large")
            if ml and len(w) == ml:
                continue
            for j in range(i, len(meas)):
                for o in x.by[meas[j][0] - 1]:
                    if o[:-1] == meas[j] and all(x.commute(o, y) for y in w) and (caps[o[0] - 1] is None or sum(y[0] == o[0] for y in w) < caps[o[0] - 1]):
                        stack.append((w + (o,), j + 1))
    spec_in = json.loads(json.dumps(sp))
    import warnings
    with warnings.catch_warnings(), prog.quiet():
        warnings.simplefilter("ignore")
        got = s.build_columns(spec_in, max_monomial_length=ml)
    need(spec_in == sp, "the specification is not modified")
    got = [tuple(int(a) for a in w) for w in got]
    need(len(got) == len(set(got)), "every product once", twice=[w for w in got if got.count(w) > 1][:2])
    need(set(got) == want, "exactly the products that are named", spec=sp, extra=sorted(set(got) - want)[:3], missing=sorted(want - set(got))[:3])
    need(all(0 not in w for w in got), "no product that vanishes")
    if () in want:
        need(got[0] == (), "the identity comes first") if not isinstance(sp, list) or sp[0] == [] else None
    need(s.n_columns == len(got) and [tuple(map(int, w)) for w in s.generating_monomials_1d] == got and {k: v for k, v in s.genmon_1d_to_index.items()} == {w: i for i, w in enumerate(got)}, "the recorded columns are the returned ones")
    return "trivial" if len(want) < 3 else None


def gen_explicit(rng, tier):
    for P in scen.stream(rng, 20, maxparties=3, maxset=2):
        lex = Ref(P).operators()
        words = [[]] + [[list(rng.choice(lex)) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(0, 4))]
        yield dict(P=P, words=words, form=rng.choice(["1d", "2d", "sym", "sym"]))


def run_explicit(c):
    import sympy as sp
    x = Ctx(c["P"], {})
    s = x.s
    words = []
    for w in c["words"]:
        t = x.canon([tuple(o) for o in w])
        if t is not None and t not in words:
            words.append(t)
    if c["form"] == "1d":
        arg = [np.array(w, dtype=int) for w in words]
    elif c["form"] == "2d":
        arg = [s._lexorder[list(w)] if w else s.identity_operator for w in words]
    else:
        arg = []
        for w in words:
            e = sp.S.One
            for k in w:
                e = e * s._lexrepr_to_symbols[k]
            arg.append(e)
    if len(words) < 1:
        return "trivial"
    got = [tuple(int(a) for a in w) for w in s.build_columns(list(arg))]
    need(got == words, "an explicit list is taken as it is given", form=c["form"], got=got, want=words)
    sym = s.build_columns(list(arg), symbolic=True)
    need(len(sym) == len(words), "as many symbols as columns")
    for e, w in zip(sym, words):
        t = sp.S.One
        for k in w:
            t = t * s._lexrepr_to_symbols[k]
        need(e == t, "symbolic form of a column", got=str(e), want=str(t))
    back = [tuple(int(a) for a in w) for w in s.build_columns(list(sym))]
    need(back == words, "symbolic columns name the same columns", got=back, want=words)


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 400):
        yield dict(P=P, kw=rng.choice([{}, {}, {"include_all_outcomes": True}, {"supports_problem": True}]))


def run_lp(c):
    P = c["P"]
    r = Ref(P)
    s = prog.lp(P, **c["kw"])
    ops = r.operators()
    ch = [any(p in q for q in r.parents) for p in range(r.nparties)]
    keep = [o for o in ops if c["kw"] or ch[o[0] - 1] or o[-1] != r.out[o[0] - 1] - 1]
    commute = (lambda a, b: True) if not r.quantum else r.commute

    def cliques(ops):
        meas = sorted({o[:-1] for o in ops})
        out, stack = set(), [((), 0)]
        while stack:
            w, i = stack.pop()
            out.add(frozenset(w))
            for j in range(i, len(meas)):
                for o in ops:
                    if o[:-1] == meas[j] and all(commute(o, y) for y in w):
                        stack.append((w + (o,), j + 1))
        return out
    want = cliques(keep)
    lex = operators(s._lexorder)
    got = [frozenset(lex[i] for i in np.flatnonzero(b)) for b in s._raw_monomials_as_lexboolvecs]
    need(len(got) == len(set(got)), "every event once")
    need(set(got) == want, "every joint event of compatible measurements and nothing else", extra=[sorted(x) for x in set(got) - want][:2], missing=[sorted(x) for x in want - set(got)][:2])
    need(got[0] == frozenset(), "the identity comes first")
    full = cliques(ops)
    big = {w for w in full if not any(w < v for v in full)}
    mx = [frozenset(lex[i] for i in np.flatnonzero(b)) for b in s._maximal_event_as_lexboolvecs]
    meas = sorted({o[:-1] for o in ops})
    big = {w for w in full if all(any(o[:-1] == m for o in w) or not all(commute(m + (0,), o) for o in w) for m in meas)}
    need(len(mx) == len(set(mx)) and set(mx) == big, "the maximal events are the joint outcomes of maximal sets of compatible measurements", extra=[sorted(x) for x in set(mx) - big][:2], missing=[sorted(x) for x in big - set(mx)][:2])
    # after symmetries: one variable for every class of events
    orb = {}
    rel = list(r.relabelings())
    for w in want:
        orb.setdefault(min(tuple(sorted(f(o) for o in w)) for f in rel), []).append(w)
    need(len(s.monomials) == len(orb), "one variable for every class of events", got=len(s.monomials), want=len(orb))
    idx = {w: int(s.inverse[i]) for i, w in enumerate(got)}
    ids = {k: {idx[w] for w in ws} for k, ws in orb.items()}
    need(all(len(v) == 1 for v in ids.values()), "events related by a relabelling are one variable")
    need(len({min(v) for v in ids.values()}) == len(orb), "different classes are different variables")
    return "trivial" if len(want) < 3 else None


def gen_level(rng, tier):
    yield dict(P=scen.HAND["bell"], level=1)


def run_level(c):
    s = prog.lp(c["P"], local_level=c["level"])
    n = max(sum(len(f.as_2d_array) for f in m.factors if not f.is_one) for m in s.monomials)
    need(n <= c["level"], "events of more measurements than the requested local level", largest=n)


GROUPS = {"sdp": (gen, run), "explicit": (gen_explicit, run_explicit), "lp": (gen_lp, run_lp), "local_level": (gen_level, run_level)}
WEIGHTS = {"sdp": 3, "lp": 2, "explicit": 1}
