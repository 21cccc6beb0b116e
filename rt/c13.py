"""C13: every name, symbol or array form of a moment resolves to that same moment."""
from .base import *
from . import scen, prog
from .ref import Ref
import numpy as np


def operators(x):
    return [tuple(int(a) for a in o) for o in x]


def shuffled(rng, word, commute):
    w = list(word)
    for _ in range(3 * len(w)):
        if len(w) > 1:
            i = rng.randrange(len(w) - 1)
            if commute(w[i], w[i + 1]):
                w[i], w[i + 1] = w[i + 1], w[i]
    return w


def gen_wide(rng, tier, kind="sdp"):
    while True:
        for P in scen.WIDE:
            if kind == "sdp":
                yield dict(P=P, prog="sdp", spec="npa1" if scen.nops(P) > 30 else "local1", seed=rng.randrange(10**6))
            elif prog.lp_size(P, 3000) <= 3000:
                yield dict(P=P, prog="lp", seed=rng.randrange(10**6))


def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 16):
        yield dict(P=P, prog="sdp", spec="npa1" if scen.nops(P) > 7 or rng.random() < .3 else "npa2", seed=rng.randrange(10**6))


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 300):
        yield dict(P=P, prog="lp", seed=rng.randrange(10**6))


def run(c):
    P = c["P"]
    r = Ref(P)
    rng = random.Random(c["seed"])
    isS = c["prog"] == "sdp"
    s = prog.sdp(P, c["spec"]) if isS else prog.lp(P)
    res = s._sanitise_moment if isS else s._sanitise_monomial
    mons = list(s.moments if isS else s.monomials)
    lex = operators(s._lexorder)
    at = {o: i for i, o in enumerate(lex)}
    commute = r.commute if isS else (lambda a, b: True)
    ip = s.InflationProblem
    names = {o: [str(x) for x in ip._lexrepr_to_all_names[i]] for i, o in enumerate(operators(ip._lexorder))}
    rel = list(r.relabelings())
    if isS:
        words = {s.compmoment_from_idx[i]: [lex[int(k)] for k in w] for i, w in s.symmetrized_corresp.items()}
    else:
        words = {m: [lex[i] for i in np.flatnonzero(b)] for m, b in zip(mons, s._monomials_as_lexboolvecs)}
    seen = {}
    for m in mons:
        need(m.name not in seen, "distinct moments have distinct printed names", name=m.name)
        seen[m.name] = m
    leg, sym = {}, {}
    for m in mons:
        need(leg.setdefault(m.legacy_name, m) == m, "distinct moments have distinct legacy names", name=m.legacy_name, one=m.name, other=leg[m.legacy_name].name)
        need(sym.setdefault(m.symbol, m) == m, "distinct moments have distinct symbols", symbol=str(m.symbol), one=m.name, other=sym[m.symbol].name)
    some = mons if len(mons) < 60 else rng.sample(mons, 60)

    def same(x, m, how):
        with prog.quiet():
            try:
                got = res(x)
            except Exception as e:
                need(False, f"a moment is recognised by its {how}", given=x if not hasattr(x, "tolist") else x.tolist(), moment=m.name, error=f"{type(e).__name__}: {str(e)[:100]}")
        need(got == m and hash(got) == hash(m) and got.name == m.name, f"the {how} resolves to the same moment", given=x if not hasattr(x, "tolist") else x.tolist(), moment=m.name, got=got.name)

    for m in some:
        same(m, m, "object itself")
        same(m.name, m, "printed name")
        same(m.legacy_name, m, "legacy name")
        same(m.symbol, m, "symbol")
        need(str(m) == m.name, "printing gives the name")
        if len(m.factors) == 1:
            same(m.factors[0], m, "single factor")
        if m.is_zero:
            continue
        w = words.get(m, [])
        if len(m.factors) > 1:
            for att in ("name", "legacy_name"):
                fs = [getattr(f, att) for f in m.factors]
                rng.shuffle(fs)
                same("*".join(fs), m, "product of its factors' names in another order")
        for _ in range(2):
            f = rng.choice(rel)
            v = shuffled(rng, [f(o) for o in w], commute)
            if isS and rng.random() < .5:
                v = v[::-1]
            a = np.array(v, dtype=int).reshape((-1, len(lex[0])))
            same(a, m, "operator array, copies relabelled and commuting operators reordered")
            same(a.tolist() if len(v) else a, m, "operator list")
            if not isS:
                same(np.array([at[o] for o in v], dtype=int), m, "list of operator indices")
            if v:
                k = rng.choice([0, 0, 2, 3])
                sep = rng.choice([" ", " ", " & "])
                same("<" + sep.join(names[o][k] for o in v) + ">", m, "operators written in full between < >")
                com = all(commute(x, y) for x in v for y in v)
                if com and sep == " ":
                    same("P[" + sep.join(names[o][k] for o in v) + "]", m, "operators written in full between P[ ]")
                same("*".join(names[o][k] for o in v), m, "product of operators written in full")
    same(1, s.One, "number one")
    same("1", s.One, "number one")
    if isS:
        same(0, s.Zero, "number zero")
    # polynomials: coefficients of equal moments add up
    e, want = 0, {}
    for m in rng.sample(mons, min(4, len(mons))):
        if m.is_zero or m.is_one:
            continue
        k = rng.randint(-3, 3) or 1
        e = e + k * m.symbol
        want[m] = want.get(m, 0) + k
    if want:
        got = {k: float(x) for k, x in s._sanitise_dict(e).items()}
        need(got == want, "an expression resolves term by term", given=str(e), got={str(k): x for k, x in got.items()})
        mixed = {}
        for m, k in want.items():
            mixed[m.name] = mixed.get(m.name, 0) + k
            mixed[m] = 2 * k
        got = {k: float(x) for k, x in s._sanitise_dict(mixed).items()}
        need(got == {m: 3 * k for m, k in want.items()}, "coefficients of the same moment under different forms add up", got={str(k): x for k, x in got.items()})
    return "trivial" if len(mons) < 4 else None


GROUPS = {"sdp": (gen_sdp, run), "lp": (gen_lp, run),
          "wide-sdp": (gen_wide, run), "wide-lp": (lambda rng, tier: gen_wide(rng, tier, "lp"), run)}
WEIGHTS = {"sdp": 2, "wide-sdp": .7, "wide-lp": .7}
