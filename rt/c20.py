"""C20: distributions with a genuine model are never rejected: the model's moments satisfy every constraint of the program."""
from .base import *
from . import scen, prog
from .ref import Ref
from .model import CModel, QModel, quantum_ok, value
import numpy as np

TOL = 1e-7


def operators(x):
    return [tuple(int(a) for a in o) for o in x]


def model(P, seed, kind):
    return QModel(P, seed) if kind == "q" and quantum_ok(P) else CModel(P, seed, 2 + seed % 2)


def kinds(rng, kw):
    c = dict(lpi=rng.random() < .6, shared=rng.random() < .2, kind=rng.choice("cqq"), seed=rng.randrange(10**6))
    if kw.get("supports_problem"):
        c["lpi"] = False
    return c


def gen_lp(rng, tier):
    # a party that is told the outcomes of two others
    for P in (scen.HAND["parents2"], scen.HAND["evans"], dict(scen.HAND["parents2"], classical_sources=["q"])):
        for kind in "cqq":
            yield dict(P=dict(P), kw={}, lpi=False, shared=False, kind=kind, seed=rng.randrange(10**6))
    for P in prog.stream_lp(rng, 350):
        kw = rng.choice([{}, {}, {}, {"include_all_outcomes": True}, {"supports_problem": True}])
        yield dict(P=P, kw=kw, **kinds(rng, kw))


def scale(known_positive, v):
    """supports problems fix events up to normalisation"""
    lo = min([v[m] for m in known_positive] + [1.])
    return 1. / lo


def run_lp(c):
    P = c["P"]
    s = prog.lp(P, **c["kw"])
    m = model(P, c["seed"], c["kind"])
    A = m.dist()
    need(abs(A.reshape(int(np.prod(Ref(P).out)), -1).sum(0) - 1).max() < 1e-6, "harness: normalised")
    v = [value(mon, m) for mon in s.monomials]
    if any(x is None for x in v):
        raise Skip("large")
    v = np.real(np.array([complex(x) for x in v]))
    sup = c["kw"].get("supports_problem")
    if sup:
        A = np.where(A > 1e-9, A, 0.)
    s.set_distribution(A, use_lpi_constraints=c["lpi"], shared_randomness=c["shared"])
    if sup:
        pos = [v[s.compmonomial_to_idx[k]] for k, b in s.moment_lowerbounds.items() if k in s.compmonomial_to_idx]
        need(all(x > 0 for x in pos), "events of the support are possible in the model", low=min(pos or [1]))
        v = v / min(pos + [1.])
    args = prog.capture_lp(s)
    by = dict(zip(args["variables"].tolist() if hasattr(args["variables"], "tolist") else list(args["variables"]), v))
    x = v
    tol = TOL * max(1, abs(v).max())
    kn = args["known_vars"].tocoo()
    for j, w in zip(kn.col, kn.data):
        need(abs(x[j] - w) < tol or (sup and j == 0), "known value differs from the model", moment=str(s.monomials[j]), got=w, want=x[j])
    if args["equalities"].shape[0]:
        d = args["equalities"].tocsr() @ x
        need(abs(d).max() < tol, "the model violates an equality", value=abs(d).max(), row=int(abs(d).argmax()))
    if args["inequalities"].shape[0]:
        d = args["inequalities"].tocsr() @ x
        need(d.min() > -tol, "the model violates an inequality", value=d.min(), row=int(d.argmin()))
    for nm, sg in (("lower_bounds", 1), ("upper_bounds", -1)):
        b = args[nm].tocoo()
        for j, w in zip(b.col, b.data):
            need(sg * (x[j] - w) > -tol, "the model violates a bound", moment=str(s.monomials[j]), got=w, value=x[j])
    if args["default_non_negative"]:
        need(x.min() > -tol, "moments of commuting operators are non-negative")
    for mon, (k, u) in s.semiknown_moments.items():
        a, b = x[s.compmonomial_to_idx[mon]], x[s.compmonomial_to_idx[u]]
        need(abs(a - k * b) < tol, "the model violates a polynomial identity", moment=str(mon), coeff=k, other=str(u), got=a, want=k * b)
    for i, bv in enumerate(s._raw_monomials_as_lexboolvecs):
        w = m.moment(operators(s._lexorder[bv]))
        if w is not None and not sup:
            need(abs(w - v[s.inverse[i]]) < tol, "events identified with one variable have one probability", event=operators(s._lexorder[bv]))
    for k, fs in s.factorization_conditions.items():
        w = 1.
        for f in fs:
            w *= complex(value(f, m)).real
        if not sup:
            need(abs(w - v[s.compmonomial_to_idx[k]]) < tol, "factorisation condition", moment=str(k))
    s.set_distribution(None)
    s.set_bounds(None, "lo")
    s.set_bounds(None, "up")


def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 16):
        kw = rng.choice([{}, {}, {}, {}, {"include_all_outcomes": True}, {"supports_problem": True}, {"commuting": True}])
        if kw.get("commuting"):
            kw = {}
            if not P.get("nonclassical_intermediate_latents"):
                P = dict(P, classical_sources="all")
        spec = None
        kids = [i for i, n in enumerate(scen.ref(P).names) if n in P["dag"]] if not kw else []
        if kids and rng.random() < .4:
            # words in which operators of a party with children come back
            p = rng.choice(kids)
            spec = [[], [p], [p, p], [p, p, p]] if rng.random() < .7 else [[], [p], [p, p]]
        yield dict(P=P, kw=kw, spec=spec or "npa1" if scen.nops(P) > 6 or rng.random() < .3 else rng.choice(["npa2", "local1", "physical2", "npa3"]), **kinds(rng, kw))


def run_sdp(c):
    P = c["P"]
    spec = c["spec"]
    if spec == "npa3" and scen.nops(P) > 5:
        spec = "npa2"
    s = prog.sdp(P, spec, **c["kw"])
    if s.n_columns > (80 if isinstance(spec, list) else 45):
        raise Skip("large")
    m = model(P, c["seed"], c["kind"])
    A = m.dist()
    v = {mon: value(mon, m) for mon in s.moments}
    if any(x is None for x in v.values()):
        raise Skip("large")
    v = {k: complex(x).real for k, x in v.items()}
    v[s.Zero], v[s.One] = 0., 1.
    sup = c["kw"].get("supports_problem")
    if sup:
        A = np.where(A > 1e-9, A, 0.)
    s.set_distribution(A, use_lpi_constraints=c["lpi"], shared_randomness=c["shared"])
    lam = 1.
    if sup:
        pos = [v[k] for k, b in s.moment_lowerbounds.items() if b]
        need(all(x > 0 for x in pos), "events of the support are possible in the model", low=min(pos or [1]))
        lam = 1 / min(pos + [1.])
    tol = TOL * lam
    x = {k.name: lam * y for k, y in v.items()}
    x[s.constant_term_name] = 1.
    args = prog.capture_sdp(s)
    for nm, w in args["known_vars"].items():
        need(abs(x[nm] - w) < tol or (sup and nm in ("1",)), "known value differs from the model", moment=nm, got=w, want=x.get(nm))
    val = {k.name: k for k in s.moments}
    for nm, (k, u) in args["semiknown_vars"].items():
        if u in x:
            b = x[u]
        else:
            mon = next(t[1] for t in s.semiknown_moments.values() if t[1].name == u)
            b = complex(value(mon, m)).real
        need(abs(x[nm] - k * b) < tol, "the model violates a polynomial identity", moment=nm, coeff=k, other=u, got=x[nm], want=k * b)
    for e in args["equalities"]:
        d = sum(k * x[n] for n, k in e.items())
        need(abs(d) < tol, "the model violates an equality", eq=e, value=d)
    for e in args["inequalities"]:
        d = sum(k * x[n] for n, k in e.items())
        need(d > -tol, "the model violates an inequality", ineq=e, value=d)
    # the moment matrix of the program at the model's moments is the model's moment matrix
    M = np.zeros((s.n_columns, s.n_columns))
    for nm, mask in args["mask_matrices"].items():
        if nm != s.constant_term_name:
            M = M + x[nm] * mask.toarray()
    lex = operators(s._lexorder)
    G = [[lex[int(k)] for k in g] for g in s.generating_monomials_1d]
    rr = random.Random(c["seed"])
    cells = [(i, j) for i in range(len(G)) for j in range(i + 1)]
    for i, j in (cells if len(cells) < 200 else rr.sample(cells, 200)):
        w = m.moment(G[i][::-1] + G[j])
        if w is not None:
            need(abs(complex(w).real * lam - M[i, j]) < tol and abs(M[i, j] - M[j, i]) < tol, "entry of the moment matrix under the model", row=G[i], col=G[j], got=M[i, j], want=complex(w).real * lam)
    ev = np.linalg.eigvalsh((M + M.T) / 2)
    need(ev[0] > -1e-6 * lam * len(M), "the moment matrix of a genuine behaviour is positive semidefinite", least=ev[0])
    s.set_distribution(None)
    s._reset_lowerbounds()
    s._reset_upperbounds()


GROUPS = {"lp": (gen_lp, run_lp), "sdp": (gen_sdp, run_sdp)}
WEIGHTS = {"sdp": 2}
