"""C19: known values propagate to products completely and consistently."""
from .base import *
from . import scen, prog
from .hist import Driver
from collections import Counter
import numpy as np
import warnings


def gen(rng, tier, which="lp"):
    for P in (prog.stream_lp(rng, 120) if which == "lp" else prog.stream_sdp(rng, 9)):
        kw = rng.choice([{}, {}, {"include_all_outcomes": True}])
        cols = None if which == "lp" else "npa2" if scen.nops(P) <= 6 and rng.random() < .5 else rng.choice(["npa1", "local1"])
        try:
            s = prog.sdp(P, cols, **kw) if cols else prog.lp(P, **kw)
            if not any(m.n_factors > 1 for m in (s.moments if cols else s.monomials)) and rng.random() < .85:
                continue
        except (Exception, Skip):
            pass  # reported by the check itself
        for _ in range(6):
            yield dict(P=P, kw=kw, cols=cols, seed=rng.randrange(10**6), rounds=rng.choice([1, 1, 2]))


NUM = [.5, .25, .125, .3, .7, 1, 0, 0.0, .1, 0.6, 2e-4, 3e-5]


def choose(rng, mons, lpi, make=None):
    """explicitly supplied values, by moment"""
    import sympy
    atoms = [m for m in mons if m.n_factors == 1]
    prods = [m for m in mons if m.n_factors > 1]
    knowable = [m for m in atoms if m.is_knowable]
    pool = list(knowable)
    if rng.random() < .5:
        pool += [m for m in atoms if not m.is_knowable]
    v = {}
    by = {f: m for m in atoms for f in m.factors if not f.is_one}
    # atoms that are no variables of the program themselves
    for m in prods:
        for f in m.factors:
            if f not in by and not f.is_one and not f.is_zero and getattr(f, "dagger", f) not in by and make is not None:
                by[f] = make([f])
                if f.is_knowable or rng.random() < .3:
                    pool.append(by[f])
    near = [by[f] for m in rng.sample(prods, min(len(prods), 3)) for f in m.factors if f in by and rng.random() < .7]
    if near and rng.random() < .8:
        pool = [m for m in dict.fromkeys(near) if m in pool or rng.random() < .2] or pool
    sym = rng.random() < .15
    for m in rng.sample(pool, min(len(pool), rng.choice([0, 1, 2, 2, 3, 3, 4, 6]))):
        v[m] = sympy.Symbol("v") * rng.choice([.5, .25]) if sym and rng.random() < .4 else rng.choice(NUM)
    if rng.random() < .4 and prods:
        for m in rng.sample(prods, min(len(prods), rng.randint(1, 2))):
            v[m] = rng.choice(NUM)
    return v


def factors(m):
    return Counter(f for f in m.factors if not f.is_one)


def run(c):
    sdp = c["cols"] is not None
    s = prog.sdp(c["P"], c["cols"], **c["kw"]) if sdp else prog.lp(c["P"], **c["kw"])
    rng = random.Random(c["seed"])
    mons = [m for m in (s.moments if sdp else s.monomials) if not m.is_one and not m.is_zero]
    if not mons:
        raise Skip("no moments")
    Driver.call(None, s, "set_values", None)
    E = {}
    lpi, only = rng.random() < .6, rng.random() < .15
    for i in range(c["rounds"]):
        V = choose(rng, mons, lpi, s._monomial_from_atoms)
        given = {(m if rng.random() < .5 else str(m)): x for m, x in V.items()}
        if rng.random() < .2:
            given[mons[0] if mons[0] not in V else str(mons[0])] = V.get(mons[0], float("nan"))
        E.update(V)
        with prog.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            before = dict(given)
            (s.set_values if i == 0 else s.update_values)(given, use_lpi_constraints=lpi, only_specified_values=only)
            need(list(before) == list(given), "the values passed are left as they were")
    K = {}
    for m, x in E.items():
        if m.n_factors == 1:
            f = [f for f in m.factors if not f.is_one][0]
            K[f] = x
            if sdp:
                K.setdefault(f.dagger, x)
    known, semi = dict(s.known_moments), dict(s.semiknown_moments)
    n = 0
    same = lambda a, b: abs(complex(__import__("sympy").N((a - b)).subs("v", .37) if hasattr(a - b, "subs") else a - b)) < 1e-9
    what = lambda m: dict(moment=str(m), given={str(k): str(x) for k, x in E.items()}, lpi=lpi, only=only)
    for m in mons:
        fs = factors(m)
        if m in E:
            need(m in known, "an explicitly supplied value is kept", **what(m))
            need(same(known[m], E[m]), "an explicitly supplied value takes precedence", got=str(known[m]), want=str(E[m]), **what(m))
            need(m not in semi, "a moment with an explicit value is not also a multiple of another", **what(m))
            continue
        got = [f for f in fs if f in K]
        rest = +(fs - Counter({f: fs[f] for f in got}))
        p = 1.
        for f in got:
            p = p * K[f] ** fs[f]
        zero = any(not hasattr(K[f], "subs") and K[f] == 0 for f in got)
        if only or m.n_factors == 1 or not got or (rest and not lpi):
            need(m not in known, "nothing else becomes known", got=str(known.get(m)), **what(m))
            need(m not in semi, "nothing else becomes partially known", **what(m))
        elif not rest:
            n += 1
            need(m in known, "all factors known: the moment is known", **what(m))
            need(same(known[m], p), "the moment is the product of its factors' values", got=str(known[m]), want=str(p), **what(m))
        elif zero:
            n += 1
            need(m in known and same(known[m], 0), "a factor equal to zero makes the moment zero", got=str(known.get(m)), **what(m))
        elif not hasattr(p, "subs") and abs(p) < 1e-7:
            continue  # zero to numerical precision
        else:
            n += 1
            y = [x for x in E if factors(x) == rest]
            if m in known:
                # allowed only when the rest is itself given
                need(y and same(known[m], p * E[y[0]]), "nothing else becomes known", got=str(known[m]), **what(m))
                continue
            need(m in semi, "some factors known: a multiple of the moment of the others", **what(m))
            k, x = semi[m]
            need(same(k, p), "the known part", got=str(k), want=str(p), **what(m))
            f2 = factors(x)
            if sdp:
                ok = f2 == rest or Counter(f.dagger for f in f2.elements()) == rest
            else:
                ok = f2 == rest
            need(ok, "the unknown part", got=str(x), want=sorted(map(str, rest.elements())), **what(m))
    extra = [m for m in known if not m.is_one and not m.is_zero and m not in mons] if not only else []
    need(not extra, "only moments of the program are known", extra=[str(m) for m in extra])
    need(not [m for m in semi if m not in mons], "only moments of the program are partially known")
    need(same(known.get(s.One, 1), 1), "the unit moment is 1")
    if sdp and s.momentmatrix_has_a_zero:
        need(same(known[s.Zero], 0), "the zero moment is 0")
    return None if n else "trivial"




def run_support(c):
    """updating the values of a possibilistic program is setting the merged ones"""
    sdp = c["cols"] is not None
    s = prog.sdp(c["P"], c["cols"], supports_problem=True, **c["kw"]) if sdp else prog.lp(c["P"], supports_problem=True, **c["kw"])
    rng = random.Random(c["seed"])
    mons = [m for m in (s.moments if sdp else s.monomials) if not m.is_one and not m.is_zero]
    atoms = [m for m in mons if m.n_factors == 1 and m.is_knowable]
    if not atoms:
        raise Skip("no atoms")

    def state():
        return {str(k): float(v) for k, v in s.known_moments.items()}, {str(k): float(v) for k, v in s.moment_lowerbounds.items()}
    E = {}
    hist = []
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.set_values(None)
        for i in range(rng.choice([2, 2, 3])):
            V = {m: rng.choice([0, 0, 1, .5, float("nan")]) for m in rng.sample(atoms, min(len(atoms), rng.choice([1, 2, 2, 3])))}
            if i and rng.random() < .7:
                V = {m: 1 - min(1, E[m]) for m in rng.sample(sorted(E, key=str), min(len(E), 2))}
            hist.append({str(k): v for k, v in V.items()})
            (s.set_values if i == 0 else s.update_values)(V)
            E.update({k: v for k, v in V.items() if v == v})
        got = state()
        s.set_values(E)
    need(got == state(), "updating values leaves what setting them all at once leaves", history=hist, got=got, want=state())
    return None if len(E) > 1 else "trivial"


GROUPS = {"support-lp": (lambda rng, tier: gen(rng, tier), run_support), "support-sdp": (lambda rng, tier: gen(rng, tier, "sdp"), run_support),
          "lp": (gen, run), "sdp": (lambda rng, tier: gen(rng, tier, "sdp"), run)}
WEIGHTS = {"lp": 1, "sdp": 1.5, "support-lp": .5, "support-sdp": .5}
