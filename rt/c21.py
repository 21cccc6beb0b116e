"""C21: the critical parameter reported separates feasible from infeasible."""
from .base import *
from itertools import product
from . import scen, prog, lpspy
from .c07 import distribution
import numpy as np
import warnings


def options(rng, lp):
    o = dict(precision=rng.choice([1e-2, 1e-3, 1e-4, 1e-5]))
    if rng.random() < .15:
        o.pop("precision")
    if rng.random() < .5:
        o["solve_dual"] = rng.choice([True, False])
    if rng.random() < .4:
        o["solverparameters"] = {"MSK_DPAR_INTPNT_TOL_REL_GAP": 1e-9}
    if rng.random() < .3:
        o["return_last_certificate"] = True
    return o


# ---------------------------------------------------------------- linear programs, solved for real
def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 60):
        for _ in range(4):
            kw = rng.choice([{}, {}, {"include_all_outcomes": True}])
            o = options(rng, True)
            if o.get("precision") == 1e-5:
                o["precision"] = 1e-4
            yield dict(P=P, kw=kw, seed=rng.randrange(10**6), method=rng.choice(["bisection", "dual"]), opts=o,
                       lb=rng.choice([0.0, 0.0, -.2]), ub=rng.choice([1.0, 1.0, .9]), shape="dist" if kw else rng.choice(["dist", "atoms", "atoms"]), bad=rng.choice(["copy", "xor", "and"]))


def correlated(P, kind):
    """a distribution with more correlations than the sources may give"""
    from .ref import Ref
    r = Ref(P)
    A = np.zeros(tuple(r.out) + tuple(r.priv))
    for x in product(*[range(n) for n in r.priv]):
        w = {}
        for k in product(*[range(n) for n in r.out]) if kind == "xor" else [(j,) * r.nparties for j in range(max(r.out))]:
            if kind == "xor" and (sum(k) - int(all(x))) % 2:
                continue
            a = tuple(v % n for v, n in zip(k, r.out))
            if kind == "and" and all(x):
                a = (0,) * r.nparties
            w[a] = w.get(a, 0) + 1
        for a, n in w.items():
            A[a + x] += n / sum(w.values())
    return A


def values_at(s, symb, v, **kw):
    import sympy
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.set_values({k: float(sympy.sympify(e).subs("v", v)) for k, e in symb.items()}, **kw)


def feasible(s, symb, v, relaxed=False):
    """is the program with the values at v feasible? (a fresh question to an independent solver)"""
    from .c11 import described
    if symb is not None:
        values_at(s, symb, v)
    names = list(s._prepare_solver_arguments(separate_bounds=False)["variables"])
    P = described(s, names)
    n = len(P.names)
    ge = P.ge + ([(P.row({k: 1}), 0.0) for k in names] if s.default_non_negative else [])
    if relaxed:
        ge = []
    A = np.array([r for r, _ in ge + P.eq]).reshape(-1, n)
    lo = np.array([h for _, h in ge + P.eq])
    up = np.array([np.inf] * len(ge) + [h for _, h in P.eq])
    st, x, f = lpspy.highs(np.zeros(n), A, lo, up, np.full(n, -np.inf), np.full(n, np.inf))
    return st == "optimal"


def run_lp(c):
    import sympy
    from inflation import max_within_feasible
    s = prog.lp(c["P"], **c["kw"])
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.reset("all")
    v = sympy.Symbol("v")
    good = np.array(distribution(c["P"], c["seed"], "random"), dtype=float)
    bad = correlated(c["P"], c["bad"])
    rng = random.Random(c["seed"])
    atoms = [m for m in s.knowable_atoms if not m.is_one and not m.is_zero]
    if not atoms:
        raise Skip("nothing to set")
    if c["shape"] == "atoms":
        atoms = rng.sample(atoms, min(len(atoms), rng.randint(1, 4)))
    symb = {}
    for m in atoms:
        g = float(m.compute_marginal(good))
        b = float(m.compute_marginal(bad)) if c["shape"] == "dist" else g + rng.choice([-1, -.5, .5, 1, .25, 0])
        symb[m] = g * (1 - v) + b * v if abs(g - b) > 1e-12 or rng.random() < .5 else g
    if c["shape"] == "dist":
        symb = {s.One: 1.0, **symb} if rng.random() < .5 else symb
    if rng.random() < .2:
        symb = {str(m): e for m, e in symb.items()}
    if not any(getattr(e, "free_symbols", None) for e in symb.values()):
        raise Skip("no parameter")
    lb, ub = c["lb"], c["ub"]
    with prog.quiet():
        if not feasible(s, symb, lb) or feasible(s, symb, ub):
            return "trivial"
    prec = c["opts"].get("precision", 1e-4)
    o = dict(c["opts"])
    if (lb, ub) != (0.0, 1.0) or rng.random() < .3:
        o["bounds"] = rng.choice([np.array([lb, ub]), [lb, ub], (lb, ub)])
    before = repr(symb)
    with lpspy.spy() as log, prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            r = max_within_feasible(s, symb, c["method"], **o)
        except AssertionError as e:
            if "ertificate" in str(e):
                return "trivial"  # the two ends are closer to the boundary than the solver resolves
            raise
        except TypeError:
            if not feasible(s, None, None, relaxed=True):
                return "trivial"  # the values contradict equalities: no slack helps
            raise
    need(repr(symb) == before, "the values given are left as they were")
    cert = None
    if c["opts"].get("return_last_certificate"):
        need(isinstance(r, tuple) and len(r) == 2, "value and certificate", got=type(r).__name__)
        r, cert = r
    r = float(r)
    need(lb <= r <= ub, "the value is within the bounds", value=r, bounds=[lb, ub])
    margin = 2 * prec + 1e-4
    with prog.quiet():
        if r - margin > lb:
            need(feasible(s, symb, r - margin), "just below the value the program is feasible", value=r, below=r - margin)
        if r + margin < ub:
            need(not feasible(s, symb, r + margin), "just above the value the program is infeasible", value=r, above=r + margin)
    if cert:
        val = certificate_at(cert, s, symb, r)
        if val is not None:
            need(abs(val) <= .02 * sum(map(abs, cert.values())), "the certificate vanishes at the value", value=r, certificate=val)
            lo = certificate_at(cert, s, symb, lb)
            need(lo >= -.02 * sum(map(abs, cert.values())), "the certificate is not negative on feasible values", certificate=lo)


def certificate_at(cert, s, symb, v):
    values_at(s, symb, v)
    k = {str(m): x for m, x in s.known_moments.items()}
    k.setdefault("1", 1.0)
    k.setdefault("constant_term", 1.0)
    if any(str(m) not in k for m in cert):
        return None
    return sum(float(x) * k[str(m)] for m, x in cert.items())


# ------------------------------------- semidefinite programs, with a solver that answers for a given feasible set
def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 8):
        kw = rng.choice([{}, {}, {"include_all_outcomes": True}])
        cols = rng.choice(["npa1", "local1"])
        for _ in range(8):
            o = options(rng, False)
            m = rng.choice(["bisection", "dual"])
            o["only_specified_values"] = rng.random() < .3
            if rng.random() < .3:
                o["use_lpi_constraints"] = m == "bisection" and rng.random() < .6
            yield dict(P=P, kw=kw, cols=cols, seed=rng.randrange(10**6), method=m, opts=o,
                       lb=rng.choice([0.0, 0.0, .1, -.5]), ub=rng.choice([1.0, 1.0, .9, 1.5]), faces=rng.choice([1, 1, 2, 3]))


def run_sdp(c):
    import sympy
    import inflation.sdp.InflationSDP as M
    from inflation import max_within_feasible
    s = prog.sdp(c["P"], c["cols"], **c["kw"])
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.reset("all")
    rng = random.Random(c["seed"])
    v = sympy.Symbol(rng.choice(["v", "v", "x", "eta"]))
    atoms = [m for m in s.moments if m.is_atomic and not m.is_one and not m.is_zero]
    if not atoms:
        raise Skip("nothing to set")
    atoms = rng.sample(atoms, min(len(atoms), rng.randint(1, 5)))
    symb = {}
    coef = {}
    for i, m in enumerate(atoms):
        a, b = rng.choice([.5, .4, .6, .45]), rng.choice([.25, -.25, .125, .2, .1, -.1])
        if i and rng.random() < .3:
            b = 0
        coef[str(m)] = (a, b)
        e = a + b * v if b else (a if rng.random() < .5 else sympy.Float(a) if rng.random() < .5 else np.float64(a))
        symb[m if rng.random() < .7 else str(m)] = e
    if rng.random() < .5:
        symb[s.One] = 1.0
    at = lambda n, x: coef[n][0] + coef[n][1] * x
    lead = str(atoms[0])
    only, lpi = c["opts"].get("only_specified_values", False), c["opts"].get("use_lpi_constraints", False)
    lb, ub = c["lb"], c["ub"]
    # the known moments as functions of the parameter
    grid = np.linspace(lb, ub, 9)
    table = {}
    def knowns(x):
        with prog.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.set_values({n: at(n, x) for n in coef}, use_lpi_constraints=lpi, only_specified_values=only)
        return {str(m): float(y) for m, y in s.known_moments.items()}
    for x in grid:
        for n, y in knowns(x).items():
            table.setdefault(n, []).append(y)
    # faces: sums over known moments that decrease along the parameter
    faces = []
    names = [n for n in table if n not in "01"]
    for _ in range(200):
        if len(faces) == c["faces"]:
            break
        f = {n: rng.choice([-2, -1, 1, 2, .5, -.5]) for n in rng.sample(names, min(len(names), rng.randint(1, 4)))}
        g = sum(k * np.array(table[n]) for n, k in f.items())
        d = np.diff(g) / np.diff(grid)
        if abs(d).min() < .05 or len(set(np.sign(d))) > 1:
            continue
        scale = -np.sign(d[0]) * rng.choice([1, 1, 2]) / abs(d).mean()
        f = {n: k * scale for n, k in f.items()}
        root = lb + (ub - lb) * rng.uniform(.15, .85)
        faces.append((f, root, abs(d).max() / abs(d).min(), abs(scale) * abs(d).max(), abs(scale) * abs(d).min()))
    if not faces:
        raise Skip("no feasible set")
    const = "1" if rng.random() < .5 else s.constant_term_name
    calls, given = [], []

    def solver(**a):
        k = a["known_vars"]
        calls.append(a)
        x = (k[lead] - coef[lead][0]) / coef[lead][1]
        need(lb - 1e-9 <= x <= ub + 1e-9, "probes are within the bounds", probe=x)
        for n in coef:
            need(n in k and abs(float(k[n]) - at(n, x)) < 1e-9, "every value is evaluated at the same parameter", moment=n, got=k.get(n), want=at(n, x))
        best = None
        for f, root, *_ in faces:
            here = sum(y * float(k[n]) for n, y in f.items()) - at_root[root, tuple(f)]
            if best is None or here < best[0]:
                best = (here, dict(f, **{const: -at_root[root, tuple(f)]}))
        given.append((x, best))
        return dict(status="feasible", primal_value=best[0], dual_value=best[0], dual_certificate=dict(best[1]), x={}, moment_matrix=None)
    at_root = {}
    for f, root, *_ in faces:
        k = knowns(root)
        at_root[root, tuple(f)] = sum(y * k[n] for n, y in f.items())
    r = min(f[1] for f in faces)
    prec = c["opts"].get("precision", 1e-4)
    o = dict(c["opts"])
    if (lb, ub) != (0.0, 1.0) or rng.random() < .3:
        o["bounds"] = rng.choice([np.array([lb, ub]), [lb, ub], (lb, ub)])
    before = repr(symb)
    old = M.solveSDP_MosekFUSION
    M.solveSDP_MosekFUSION = solver
    try:
        with prog.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = max_within_feasible(s, symb, c["method"], **o)
    finally:
        M.solveSDP_MosekFUSION = old
    need(repr(symb) == before, "the values given are left as they were")
    cert = None
    if c["opts"].get("return_last_certificate"):
        need(isinstance(got, tuple) and len(got) == 2, "value and certificate", got=type(got).__name__)
        got, cert = got
    got = float(got)
    hi, lo = max(f[3] for f in faces), min(f[4] for f in faces)
    tol = prec * 1.01 + prec / 1024 / lo + 1e-6
    need(got >= r - tol, "the program is infeasible just above the value", value=got, critical=r, precision=prec)
    # the certificate method stops when a step is below the precision
    tol2 = tol if c["method"] == "bisection" or len(faces) == 1 else tol + 2 * prec * hi / lo
    need(got <= r + tol2, "the program is feasible just below the value", value=got, critical=r, precision=prec)
    for a in calls:
        need(bool(a["feas_as_optim"]), "the program is solved as an optimisation")
        need(bool(a["solve_dual"]) == bool(c["opts"].get("solve_dual", True)), "solve_dual is passed on", got=a["solve_dual"])
        need((a["solverparameters"] or None) == c["opts"].get("solverparameters"), "solver parameters are passed on", got=a["solverparameters"])
    if cert is not None:
        from inflation.utils import clean_coefficients
        opts = []
        for x, (val, d) in given:
            t = {("1" if n == s.constant_term_name else n): y for n, y in d.items()}
            m = max(map(abs, t.values()))
            opts.append({n: y / m for n, y in t.items()})
        norm = {("1" if str(m) == s.constant_term_name else str(m)): float(y) for m, y in cert.items()}
        m = max(map(abs, norm.values()), default=1) or 1
        norm = {n: y / m for n, y in norm.items()}
        close = lambda t: all(abs(t.get(n, 0) - norm.get(n, 0)) < 2e-3 for n in set(t) | set(norm))
        need(any(close(t) for t in opts), "the certificate is one of a program solved", certificate=norm)
        need(close(opts[-1]), "the certificate is that of the last program solved", certificate=norm, last=opts[-1])


GROUPS = {"lp": (gen_lp, run_lp), "sdp": (gen_sdp, run_sdp)}
