"""C14: certificates keep their meaning in every form they are reported."""
from .base import *
from . import scen, prog
from .c07 import distribution
from .ref import Ref
import numpy as np
import re
import warnings


# ---------------------------------------------------------- cleaning
def coeff(rng):
    k = rng.random()
    if k < .15:
        return 0.0
    if k < .3:
        return rng.choice([1, -1, 2, -3])
    if k < .45:
        return rng.choice([1, -1]) * 10.0 ** rng.uniform(-12, -3)
    return rng.choice([1, -1]) * 10.0 ** rng.uniform(-3, 3)


def gen_clean(rng, tier):
    while True:
        n = rng.choice([0, 1, 1, 2, 3, 5, 8])
        d = {f"m{i}": coeff(rng) for i in range(n)}
        if rng.random() < .2:
            d = {k: int(round(v)) for k, v in d.items()}
        yield dict(d=d, tol=rng.choice([1e-10, 1e-10, 1e-6, 1e-3, 0, 0.5, -1e-4, 10]), dec=rng.choice([3, 3, 1, 6, 8]))


def check_clean(d, out, tol, dec):
    need(list(out) == list(d), "every key is kept", given=list(d), got=list(out))
    tol = abs(tol)
    h = .5 * 10.0 ** -dec * 1.001
    lo, hi = 0.0, float("inf")
    for k, v in d.items():
        w = float(out[k])
        if abs(v) <= tol:
            need(w == 0, "coefficients below the tolerance are zero", key=k, given=v, got=w, all=d)
            continue
        need(w * v >= 0, "no sign is flipped", key=k, given=v, got=w)
        # the factor s with s*v within h of w
        a, b = sorted([(w - h) / v, (w + h) / v])
        a, b = a - 1e-9 * abs(a), b + 1e-9 * abs(b)
        lo, hi = max(lo, a), min(hi, b)
    need(lo <= hi and hi > 0, "all coefficients are divided by one positive number", given=d, got=dict(out), tol=tol, dec=dec)


def run_clean(c):
    from inflation.utils import clean_coefficients
    d = dict(c["d"])
    out = clean_coefficients(d, c["tol"], c["dec"])
    need(d == c["d"], "the certificate passed is left as it was")
    check_clean(c["d"], out, c["tol"], c["dec"])
    big = [k for k, v in d.items() if abs(v) > abs(c["tol"])]
    if big and c["dec"] >= 3 and abs(c["tol"]) > 0:
        # dividing by the smallest: nothing above the tolerance is lost to rounding
        need(all(float(out[k]) != 0 for k in big), "coefficients above the tolerance are not lost", given=d, got=dict(out))
    return "trivial" if not big else None


# ---------------------------------------------------------- the forms of a certificate
def gen(rng, tier):
    i = 0
    a, b = prog.stream_lp(rng, 60), prog.stream_sdp(rng, 8)
    while True:
        i += 1
        P = next(a) if i % 2 else next(b)
        kw = rng.choice([{}, {}, {}, {"include_all_outcomes": True}, {"supports_problem": True}])
        for _ in range(3):
            yield dict(P=P, prog="lp" if i % 2 else "sdp", cols=rng.choice(["npa1", "local1"]), kw=kw, seed=rng.randrange(10**6),
                       clean=rng.random() < .6, tol=rng.choice([1e-10, 1e-10, 1e-4, 0]), dec=rng.choice([3, 3, 6]),
                       dist=rng.choice(["all"] * 6 + ["some", "none"]), bounds=rng.random() < .3, kind=rng.choice(["random"] * 7 + ["small", "zero", "one"]))


def obtain(s, c, rng):
    """solve, the solver finding the program infeasible with some certificate"""
    got = {}

    def fake(**a):
        names = list(a["known_vars"]) if isinstance(a.get("known_vars"), dict) else None
        if names is None:
            kv = a["known_vars"]
            kv = kv.tocoo() if hasattr(kv, "tocoo") else kv
            names = [str(a["variables"][j]) for j in kv.coords[1]]
            names = list(dict.fromkeys(names))
        k = c["kind"]
        d = {}
        for v in names:
            x = coeff(rng)
            d[v] = 0.0 if k == "zero" else x * 1e-6 if k == "small" else (1.0 if v == names[-1] else 0.0) if k == "one" else x
        # as the solvers do: no terms that are zero; the constant of a bound only where there is one
        if not c["bounds"] and "1" in d:
            d.pop("constant_term", None)
        d = {v: x for v, x in d.items() if abs(x) > 1e-8}
        got.update(d)
        return dict(success=False, status="infeasible", dual_certificate=dict(d), x={}, primal_value=None, dual_value=None)
    if c["prog"] == "lp":
        import inflation.lp.InflationLP as M
        fn = "solveLP"
    else:
        import inflation.sdp.InflationSDP as M
        fn = "solveSDP_MosekFUSION"
    old = getattr(M, fn)
    setattr(M, fn, fake)
    try:
        s.solve()
    finally:
        setattr(M, fn, old)
    return got


def parse(text, names):
    """a string of the form  c + c*name - name ...  as a dictionary"""
    out = {}
    i = 0
    names = sorted(names, key=len, reverse=True)
    first = True
    while i < len(text):
        sign = 1
        if text[i] in "+-":
            sign = -1 if text[i] == "-" else 1
            i += 1
        else:
            need(first, "terms are joined by a sign", text=text, at=i)
        first = False
        m = re.compile(r"(\d+\.?\d*(e[+-]?\d+)?)").match(text, i)
        k = 1.0
        at = next((n for n in names if text.startswith(n, i) and (i + len(n) == len(text) or text[i + len(n)] in "+-")), None)
        if at is None:
            need(m is not None, "a term is a number, a moment, or their product", text=text, at=i)
            k = float(m.group(1))
            i = m.end()
            if i < len(text) and text[i] == "*":
                at = next((n for n in names if text.startswith(n, i + 1) and (i + 1 + len(n) == len(text) or text[i + 1 + len(n)] in "+-")), None)
                need(at is not None, "a coefficient is followed by a moment", text=text, at=i)
                i += 1 + len(at)
            else:
                at = "1"
        else:
            i += len(at)
        out[at] = out.get(at, 0.0) + sign * k
    return out


def unit(d):
    """constants together"""
    o = {}
    for k, v in d.items():
        k = "1" if k == "constant_term" else k
        o[k] = o.get(k, 0.0) + v
    return o


def same(a, b, tol):
    return all(abs(a.get(k, 0.0) - b.get(k, 0.0)) <= tol * max(1, abs(a.get(k, 0.0))) for k in set(a) | set(b))


def run(c):
    sdp = c["prog"] == "sdp"
    s = prog.sdp(c["P"], c["cols"], **c["kw"]) if sdp else prog.lp(c["P"], **c["kw"])
    rng = random.Random(c["seed"])
    A = distribution(c["P"], c["seed"], "random")
    s.set_bounds(None, "up")
    s.set_bounds(None, "lo")
    s.set_distribution(None)
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["dist"] == "all":
            s.set_distribution(A, use_lpi_constraints=rng.random() < .3)
        elif c["dist"] == "some":
            ks = [m for m in s.knowable_atoms if not m.is_one and not m.is_zero]
            s.set_values({m: float(m.compute_marginal(A)) for m in rng.sample(ks, min(len(ks), 2))})
        mons = [m for m in (s.moments if sdp else s.monomials) if not m.is_one and not m.is_zero and m not in s.known_moments]
        if c["bounds"] and mons:
            s.set_bounds({rng.choice(mons): .75}, "up")
        raw = obtain(s, c, rng)
        names = {m.name for m in (s.moments if sdp else s.monomials) if not m.is_zero} | {"1"}
        B = distribution(c["P"], c["seed"] + 1, "random")
        ops = dict(clean=c["clean"], chop_tol=c["tol"], round_decimals=c["dec"])
        d = s.certificate_as_dict(**ops)
        D = unit({m.name: float(v) for m, v in d.items()})
        R = {k: v for k, v in unit(raw).items() if k != "0"}
        if all(abs(v) < 1e-8 for v in raw.values()):
            need(not any(D.values()), "no certificate, no terms", got=D)
        elif not c["clean"]:
            need(same(R, D, 1e-12), "the dictionary is the certificate", certificate=R, got=D)
        else:
            T = {k: v for k, v in raw.items() if k != "0"}
            h, t = .5 * 10.0 ** -c["dec"] * 1.001, abs(c["tol"])
            lo, hi = 0.0, float("inf")
            for k in R:
                # the constant may collect two coefficients, each chopped and rounded
                parts = [v for q, v in T.items() if ("1" if q == "constant_term" else q) == k]
                kept = [v for v in parts if abs(v) > t]
                w = D.get(k, 0.0)
                v = sum(kept)
                if not kept:
                    need(w == 0, "coefficients below the tolerance are zero", key=k, certificate=raw, got=D)
                    continue
                if abs(v) < 1e-12:
                    continue
                a, b = sorted([(w - h * len(kept)) / v, (w + h * len(kept)) / v])
                lo, hi = max(lo, a - 1e-9 * abs(a)), min(hi, b + 1e-9 * abs(b))
            need(lo <= hi and hi > 0, "the dictionary is the certificate divided by one positive number", certificate=raw, got=D, ops=ops)
            need(set(D) <= set(R), "no other terms", certificate=R, got=D)
        # the other forms denote the dictionary
        text = s.certificate_as_string(**ops)
        need(text.endswith(" < 0"), "the string states that the polynomial is negative", got=text)
        S = parse(text[:-len(" < 0")].replace(" ", " "), names)
        need(same(D, unit(S), 2e-5), "the string denotes the dictionary", dictionary=D, got=text)
        import sympy
        e = s.certificate_as_probs(**ops)
        v1 = 0.0
        sym = {}
        for m in (s.moments if sdp else s.monomials):
            if m.symbol.free_symbols if hasattr(m.symbol, "free_symbols") else False:
                for y in m.symbol.free_symbols:
                    sym.setdefault(y, rng.uniform(.2, .9))
        val = lambda x: float(sympy.sympify(x).subs(sym))
        bysym = {m.name: m.symbol for m in (s.moments if sdp else s.monomials)}
        want = sum(v * (1.0 if k == "1" else val(bysym[k])) for k, v in D.items())
        need(abs(val(e) - want) < 1e-6 * (1 + sum(map(abs, D.values()))), "the expression denotes the dictionary", dictionary=D, got=str(e))
        # evaluation
        if all(m.is_knowable for m in d):
            from .c07 import value
            r = Ref(c["P"])
            want = sum(float(v) * value(r, B, m) for m, v in d.items())
            got = s.evaluate_polynomial(d, B)
            need(abs(float(got) - want) < 1e-7 * (1 + sum(map(abs, D.values()))), "evaluating gives the value at the probabilities", dictionary=D, got=got, want=want)
            dd = s.certificate_as_dict()
            want = sum(float(v) * value(r, B, m) for m, v in dd.items())
            got = s.evaluate_certificate(B)
            need(abs(float(got) - want) < 1e-7 * (1 + sum(abs(float(v)) for v in dd.values())), "evaluating the certificate gives its value", certificate={str(m): v for m, v in dd.items()}, got=got, want=want)
        # polynomials given by name
        ks = rng.sample(sorted(names - {"0"}), min(len(names - {"0"}), 3))
        q = {k: rng.choice([1, -1, .5, 2, -3.25, 0]) for k in ks}
        text = s.string_from_dict(dict(q))
        need(same(unit(q), unit(parse(text, names)), 2e-5), "a dictionary written as a string", dictionary=q, got=text)
        need(abs(val(s.probs_from_dict(dict(q))) - sum(v * (1.0 if k == "1" else val(bysym[k])) for k, v in q.items())) < 1e-6, "a dictionary written over probabilities", dictionary=q)
        # a constant polynomial, written as a number or as an expression, is a multiple of the unit
        x = rng.choice([3, -1, 2.5, -.25, 0])
        for form in (sympy.sympify(x), {"1": x}):
            got = s.evaluate_polynomial(form, B)
            need(abs(float(got) - x) < 1e-9, "a constant polynomial has its constant as value", polynomial=str(form), got=got, want=x)
            need(abs(val(s.probs_from_dict(form)) - x) < 1e-9, "a constant polynomial is kept", polynomial=str(form))
    return "trivial" if len(raw) < 2 else None


GROUPS = {"clean": (gen_clean, run_clean), "forms": (gen, run)}
WEIGHTS = {"clean": .3, "forms": 2}
