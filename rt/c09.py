"""C09: the linear program handed to the solver is the stated one, and the reported results are those of that program."""
from .base import *
from . import scen, prog, lpspy
from .lpspy import Prog, INF
import numpy as np
from itertools import product


def num(rng):
    return rng.choice([1, -1, 2, -2, 0.5, -0.5, 3, 0.25, 1.5, -1.25, 1, -1])


def rand_lp(rng, maxv=6):
    n = rng.randint(2, maxv)
    names = ["1"] + rng.sample(["x", "y", "z", "w", "P[A=0]", "v3", "b", "u"], n - 1)
    order = rng.choice([0, 0, 1])
    if order:
        rng.shuffle(names)
    x0 = {v: rng.choice([0, 0.5, 1, 2, 0.25, rng.random()]) for v in names}
    x0["1"] = 1.0
    kind = rng.choice(["around", "around", "around", "wild"])

    def row():
        k = rng.randint(1, min(4, n))
        return {v: num(rng) for v in rng.sample(names, k)}
    ineq, eq = [], []
    for _ in range(rng.randint(0, 4)):
        r = row()
        if kind == "around":
            s = sum(c * x0[v] for v, c in r.items())
            r["1"] = r.get("1", 0) - s + rng.choice([0, 0.5, 1])
            if not r["1"]: del r["1"]
        ineq.append(r)
    for _ in range(rng.randint(0, 2)):
        r = row()
        if kind == "around":
            s = sum(c * x0[v] for v, c in r.items())
            r["1"] = r.get("1", 0) - s
            if not r["1"]: del r["1"]
        eq.append(r)
    if rng.random() < .2 and ineq:
        ineq.insert(rng.randint(0, len(ineq)), {})  # a row without terms
    known = {"1": 1.0}
    for v in names:
        if v != "1" and rng.random() < .25:
            known[v] = x0[v] if rng.random() < .8 else rng.choice([0, 1, .3])
    if rng.random() < .1:
        known = {k: known[k] for k in known if k != "1"} or known
    lo, up = {}, {}
    for v in names:
        if rng.random() < .3:
            lo[v] = x0[v] - rng.choice([0, 0, .5, 1, 3])
        if rng.random() < .3:
            up[v] = x0[v] + rng.choice([0, 0.5, 1])
        if v in lo and rng.random() < .3:
            lo[v] = 0
    semi = {}
    if rng.random() < .3 and n > 2:
        a, b = rng.sample(names, 2)
        semi[a] = [rng.choice([0.5, 0.25, 2, 0]), b]
    obj = {v: num(rng) for v in rng.sample(names, rng.randint(1, n))} if rng.random() < .8 else {}
    if rng.random() < .6:
        # keep the optimum finite
        for v in names:
            if v != "1" and v not in up:
                up[v] = x0[v] + 1 + rng.random()
    return dict(names=names, obj=obj, ineq=ineq, eq=eq, known=known, lo=lo, up=up, semi=semi,
                dnn=rng.choice([True, False]), relax=rng.choice(["", "", "", "known", "ineq", "both"]))


def spec(c):
    """the stated program; relaxed programs have the extra slack variable, are over variables without default
    sign, and minimise the slack"""
    relax = c["relax"]
    names = list(c["names"]) + (["slack"] if relax else [])
    P = Prog(names)
    rk, ri = relax in ("known", "both"), relax in ("ineq", "both")
    if relax:
        P.c[-1] = -1
    else:
        P.c = P.row(c["obj"])
    for r in c["ineq"]:
        if any(r.values()):
            P.add_ge(dict(r, **({"slack": 1} if ri else {})))
    for r in c["eq"]:
        P.add_eq(r)
    for a, (k, b) in c["semi"].items():
        P.eq.append((P.row({a: 1}) - k * P.row({b: 1}), 0.0))
    for v, x in c["known"].items():
        if rk:
            P.add_ge({v: 1, "slack": 1}, x)
            P.add_ge({v: -1, "slack": 1}, -x)
        else:
            P.add_eq({v: 1}, x)
    for v, x in c["lo"].items():
        P.add_ge({v: 1}, x)
    for v, x in c["up"].items():
        P.add_ge({v: -1}, -x)
    if c["dnn"] and not relax:
        for v in c["names"]:
            if v not in c["lo"]:
                P.add_ge({v: 1})
    return P


def solve_prog(P):
    rows = P.ge + P.eq
    if not rows:
        return ("optimal", np.zeros(len(P.names)), 0.0) if not P.c.any() else ("unbounded", None, None)
    A = np.array([r for r, _ in rows])
    lo = np.array([h for _, h in rows])
    up = np.array([INF] * len(P.ge) + [h for _, h in P.eq])
    st, x, f = lpspy.highs(-P.c, A, lo, up, np.full(len(P.names), -INF), np.full(len(P.names), INF))
    return st, x, (None if f is None else -f)


def recedes(P):
    """does the objective improve for ever along the constraints?"""
    R = Prog(P.names)
    R.ge = [(r, 0.0) for r, _ in P.ge] + [(e * k, -1.0) for e in np.eye(len(P.names)) for k in (1, -1)]
    R.eq = [(r, 0.0) for r, _ in P.eq]
    R.c = P.c
    st, _, f = solve_prog(R)
    return st != "optimal" or f > 1e-9


def feasible(P, x, tol=1e-6):
    return all(r @ x >= h - tol for r, h in P.ge) and all(abs(r @ x - h) <= tol for r, h in P.eq)


def cone(c):
    """the constraints that hold whatever the known values are"""
    P = Prog(c["names"])
    for r in c["ineq"]:
        P.add_ge(r)
    for r in c["eq"]:
        P.add_eq(r)
    for a, (k, b) in c["semi"].items():
        P.eq.append((P.row({a: 1}) - k * P.row({b: 1}), 0.0))
    for v, x in c["lo"].items():
        P.add_ge({v: 1}, x)
    for v, x in c["up"].items():
        P.add_ge({v: -1}, -x)
    if c["dnn"] and not c["relax"]:
        for v in c["names"]:
            if v not in c["lo"]:
                P.add_ge({v: 1})
    return P


def check_result(c, P, sol, mode):
    st, x, f = solve_prog(P)
    need(sol["success"] == (st == "optimal"), "success is reported exactly when the program has an optimum", mode=mode, program=st, reported=sol["status"])
    names = c["names"]
    if st == "optimal":
        need(abs(sol["primal_value"] - f) < 1e-6 * (1 + abs(f)), "the reported primal value is the optimum of the stated program", mode=mode, want=f, got=sol["primal_value"])
        need(abs(sol["dual_value"] - f) < 1e-6 * (1 + abs(f)), "the reported dual value is the optimum of the stated program", mode=mode, want=f, got=sol["dual_value"])
        need(set(sol["x"]) == set(names) , "a value is reported for every variable", mode=mode, got=sorted(sol["x"]))
        xs = np.array([sol["x"][v] for v in names] + ([-f] if c["relax"] else []))
        need(feasible(P, xs), "the reported solution satisfies the stated constraints", mode=mode, x=sol["x"])
        need(abs(P.c @ xs - f) < 1e-6 * (1 + abs(f)), "the reported solution attains the optimum", mode=mode, x=sol["x"])
    cert = sol["dual_certificate"]
    need(set(cert) <= set(names), "the certificate is over the variables", mode=mode, got=sorted(cert))
    sp = np.asarray(sol["sparse_certificate"].toarray()).ravel()[:len(names)] if sol.get("sparse_certificate") is not None else None
    if sp is not None:
        for v, w in zip(names, sp):
            need(abs(cert.get(v, 0) - w) < 1e-6, "the certificate and its sparse form agree", mode=mode, var=v, dict=cert.get(v, 0), sparse=w)
    if st == "unbounded":
        return st
    # the certificate bounds what it must: cert(x) >= 0 for every x obeying the homogeneous constraints
    if any(c["lo"].values()) or c["up"]:
        return st
    K = cone(c)
    k = np.array([cert.get(v, 0.0) for v in names])
    E = np.eye(len(names))
    K.ge += [(e, -1.0) for e in E] + [(-e, -1.0) for e in E]
    K.c = -k
    s2, x2, f2 = solve_prog(K)
    need(s2 == "optimal" and -f2 > -1e-6 * (1 + np.abs(k).max(initial=0)), "the certificate is non-negative on everything the constraints allow", mode=mode, certificate=cert, point=None if x2 is None else dict(zip(names, x2)), value=None if f2 is None else -f2)
    if st == "infeasible" and recedes(P):
        return st  # neither the program nor its dual has a solution: the solver may certify either
    if st == "infeasible" or (c["relax"] and f < -1e-6):
        if set(cert) <= set(c["known"]):
            v = sum(w * c["known"][n] for n, w in cert.items())
            need(v < 0, "the certificate is negative at known values that are infeasible", mode=mode, certificate=cert, value=v)
    return st


def args_of(c, form):
    from inflation.lp.lp_utils import to_sparse, convert_dicts
    a = dict(objective=dict(c["obj"]), known_vars=dict(c["known"]), inequalities=[dict(r) for r in c["ineq"]], equalities=[dict(r) for r in c["eq"]],
             lower_bounds=dict(c["lo"]), upper_bounds=dict(c["up"]), semiknown_vars={k: tuple(v) for k, v in c["semi"].items()})
    names = c["names"]
    if form == "dict":
        return dict(a, variables=list(names))
    if form == "less":
        # absent arguments are as good as empty ones
        b = {k: v for k, v in a.items() if v}
        return dict(b, variables=list(names))
    if form == "infer":
        return a
    if form == "mixed":
        b = dict(a)
        for k in ("objective", "inequalities", "known_vars"):
            if b[k]:
                b[k] = to_sparse(b[k], names)
        return dict(b, variables=list(names))
    sp = convert_dicts(variables=list(names), **a)
    return dict(sp, variables=list(names))


def flags(c, dual):
    return dict(default_non_negative=c["dnn"], relax_known_vars=c["relax"] in ("known", "both"), relax_inequalities=c["relax"] in ("ineq", "both"), solve_dual=dual)


def well_posed(c):
    """relaxed: something to relax"""
    if c["relax"] == "ineq" and not any(any(r.values()) for r in c["ineq"]):
        return False
    if c["relax"] in ("known",) and not c["known"]:
        return False
    if c["relax"] and c["obj"]:
        c["obj"] = {}
    # explicit lower bounds together with a default sign: the explicit one wins; nothing else to say
    return True


def gen_entry(rng, tier):
    while True:
        c = rand_lp(rng)
        if not well_posed(c):
            continue
        yield dict(c, form=rng.choice(["dict", "dict", "sparse", "mixed", "less", "infer"]))


def run_entry(c):
    from inflation.lp import lp_utils
    c = dict(c)
    form = c["form"]
    if form == "infer":
        used = set(c["obj"]) | set(c["known"]) | {v for r in c["ineq"] + c["eq"] for v in r} | set(c["semi"]) | {b for _, b in c["semi"].values()}
        c["names"] = sorted(used)
        c["lo"] = {k: v for k, v in c["lo"].items() if k in used}
        c["up"] = {k: v for k, v in c["up"].items() if k in used}
        if not used:
            raise Skip("empty")
    if form == "sparse" and not c["semi"] and not (c["ineq"] or c["eq"] or c["known"]):
        raise Skip("no constraints")
    P = spec(c)
    st = None
    for dual in (False, True):
        a = args_of(c, form)
        before = repr(a)
        with lpspy.spy() as log:
            sol = (lp_utils.solveLP_sparse if form == "sparse" else lp_utils.solveLP)(**a, **flags(c, dual))
        if form in ("dict", "less", "infer"):
            need(repr(a) == before, "the caller's arguments are left as they were", before=before, after=repr(a))
        ps = lpspy.programs(log)
        need(len(ps) == 1, "one program is solved", n=len(ps))
        mode = f"{form}, {'dual' if dual else 'primal'}"
        m = lpspy.check_same(P, ps[0][0])
        need(not m, f"the arrays handed to the solver ({mode}) are not the stated program: {m}")
        st = check_result(c, P, sol, mode)
    return "trivial" if not c["ineq"] and not c["eq"] else None


GROUPS = {"entry": (gen_entry, run_entry)}


# ------------------------------------------------------------ whole programs
def gen_program(rng, tier):
    for P in prog.stream_lp(rng, 60):
        yield dict(P=P, seed=rng.randrange(10**6), kw=rng.choice([{}, {}, {"include_all_outcomes": True}, {"default_non_negative": False}]),
                   what=rng.choice(["feas", "feas", "obj", "obj", "min"]), dist=rng.choice(["none", "some", "all", "all"]),
                   relax=rng.choice(["", "", "known", "ineq"]), lpi=rng.random() < .4, extra=rng.random() < .4, bounds=rng.random() < .3, dual=rng.random() < .5)


def by_name(s, names):
    """the program given by dictionaries is the one given by arrays"""
    a, b = s._prepare_solver_arguments(), s._prepare_solver_matrices()
    need([v for v in a["variables"] if v in names] == list(names) == list(b["variables"]), "the variables are the moments")
    idx = {v: i for i, v in enumerate(names)}

    def vec(d):
        r = np.zeros(len(names))
        for k, x in d.items():
            r[idx[k]] += x
        return r

    def mat(ds):
        return sorted(tuple(np.round(vec(d), 9) + 0.) for d in ds)

    def arr(m):
        return sorted(tuple(np.round(r, 9) + 0.) for r in m.toarray().reshape(-1, len(names)))
    semi = [{k: 1.} for k in a["semiknown_vars"]]
    for d, (k, x) in zip(semi, a["semiknown_vars"].values()):
        d[x] = d.get(x, 0.) - k
    for key, got in (("objective", [a["objective"]]), ("known_vars", [{k: x for k, x in a["known_vars"].items() if k in idx}]), ("equalities", a["equalities"] + semi),
                     ("inequalities", a["inequalities"]), ("lower_bounds", [a["lower_bounds"]]), ("upper_bounds", [a["upper_bounds"]])):
        need(mat(got) == arr(b[key]), f"{key} by name and by arrays are the same", by_name=got, arrays=b[key].toarray().tolist())
    for got, m in ((s.moment_equalities, s.sparse_equalities), (s.moment_inequalities, s.sparse_inequalities)):
        need(mat([{str(k): x for k, x in d.items()} for d in got]) == arr(m), "constraints by moment and by arrays are the same")


def run_program(c):
    import random as R
    import warnings
    from .c07 import distribution
    rng = R.Random(c["seed"])
    s = prog.new_lp(c["P"], **c["kw"])
    names = [str(m) for m in s.monomials]
    need(len(set(names)) == len(names), "variables have distinct names")
    P = Prog(names)
    relax = c["relax"] if c["what"] == "feas" else ""
    rk, ri = relax == "known", relax == "ineq"
    if relax:
        P = Prog(names + ["slack"])
    ops = dict(known={"1": 1.0}, semi={}, ineq=[], eq=[], lo={}, up={})
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["dist"] != "none":
            p = distribution(c["P"], c["seed"], rng.choice(["random", "deterministic"]) if c["dist"] == "all" else "random")
            if c["dist"] == "all":
                s.set_distribution(p, use_lpi_constraints=c["lpi"])
            else:
                ks = [m for m in s.knowable_atoms]
                rng.shuffle(ks)
                s.set_values({m: m.compute_marginal(p) for m in ks[:max(1, len(ks) // 2)]}, use_lpi_constraints=c["lpi"])
            ops["known"] = {str(k): float(v) for k, v in s.known_moments.items()}
            ops["semi"] = {str(k): (float(v[0]), str(v[1])) for k, v in s.semiknown_moments.items()}
        obj = {}
        if c["what"] != "feas":
            for m in rng.sample(names, min(len(names), rng.randint(1, 4))):
                obj[m] = num(rng)
            s.set_objective(dict(obj), "max" if c["what"] == "obj" else "min")
        if c["extra"]:
            for k in range(rng.randint(0, 2)):
                ops["eq"].append({m: num(rng) for m in rng.sample(names, min(len(names), 3))})
            for k in range(rng.randint(0, 2)):
                ops["ineq"].append({m: num(rng) for m in rng.sample(names, min(len(names), 3))})
            s.set_extra_equalities([dict(d) for d in ops["eq"]])
            s.set_extra_inequalities([dict(d) for d in ops["ineq"]])
        if c["bounds"]:
            ops["lo"] = {m: rng.choice([0, .1, .25]) for m in rng.sample(names, min(len(names), rng.randint(0, 2)))}
            ops["up"] = {m: rng.choice([1, .5, .75]) for m in rng.sample(names, min(len(names), rng.randint(0, 2)))}
            s.set_bounds(dict(ops["lo"]), "lo")
            s.set_bounds(dict(ops["up"]), "up")
    sign = -1 if c["what"] == "min" else 1
    if relax:
        P.c[-1] = -1
    else:
        P.c = sign * P.row(obj)

    def rows(mat):
        mat = mat.tocsr()
        out = []
        for i in range(mat.shape[0]):
            r = mat[[i]].toarray().ravel()
            out.append(np.concatenate((r, [0.0])) if relax else r)
        return out
    for r in rows(s.minimal_sparse_equalities):
        P.eq.append((r, 0.0))
    for r in rows(s.minimal_sparse_inequalities):
        if r.any():
            if ri:
                r[-1] = 1
            P.ge.append((r, 0.0))
    for d in ops["eq"]:
        P.add_eq(d)
    for d in ops["ineq"]:
        P.add_ge(dict(d, **({"slack": 1} if ri else {})))
    for a, (k, b) in ops["semi"].items():
        P.eq.append((P.row({a: 1}) - k * P.row({b: 1}), 0.0))
    for v, x in ops["known"].items():
        if rk:
            P.add_ge({v: 1, "slack": 1}, x)
            P.add_ge({v: -1, "slack": 1}, -x)
        else:
            P.add_eq({v: 1}, x)
    for v, x in ops["lo"].items():
        P.add_ge({v: 1}, x)
    for v, x in ops["up"].items():
        P.add_ge({v: -1}, -x)
    dnn = c["kw"].get("default_non_negative", True) and not relax
    if dnn:
        for v in names:
            if v not in ops["lo"]:
                P.add_ge({v: 1})
    by_name(s, names)
    kn, eqs = dict(s.known_moments), dict(s.semiknown_moments)
    with lpspy.spy() as log, prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.solve(solve_dual=c["dual"], relax_known_vars=rk, relax_inequalities=ri)
    ps = lpspy.programs(log)
    need(len(ps) == 1, "one program is solved", n=len(ps))
    m = lpspy.check_same(P, ps[0][0])
    need(not m, f"the arrays handed to the solver are not the stated program: {m}")
    need(dict(s.known_moments) == kn and dict(s.semiknown_moments) == eqs, "solving leaves the settings as they were")
    st, x, f = solve_prog(P)
    need(bool(s.success) == (st == "optimal"), "success is reported exactly when the program has an optimum", program=st, reported=s.status)
    if st == "optimal":
        need(abs(s.primal_objective - f) < 1e-6 * (1 + abs(f)), "the reported optimum is that of the stated program", want=f, got=s.primal_objective)
        need(abs(s.objective_value - sign * f) < 1e-6 * (1 + abs(f)), "the reported objective value is that of the stated direction", want=sign * f, got=s.objective_value)
        xs = s.solution_object["x"]
        xs = np.array([xs[v] for v in names] + ([-f] if relax else []))
        need(feasible(P, xs), "the reported solution satisfies the stated constraints")
    else:
        need(s.objective_value == s.status, "a program without optimum reports its status", got=s.objective_value)
    if st != "unbounded" and not any(ops["lo"].values()) and not ops["up"]:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            cert = s.certificate_as_dict(clean=False)
        cert = {str(k): float(v) for k, v in cert.items()}
        need(set(cert) <= set(names), "the certificate is over the variables", got=sorted(cert))
        K = Prog(names)
        cut = lambda r: r[:len(names)]
        K.eq = [(cut(r), h) for r, h in P.eq if h == 0 and not any(np.array_equal(r, P.row({v: 1})) for v in ops["known"])]
        for r in rows(s.minimal_sparse_inequalities):
            K.ge.append((cut(r), 0.0))
        for d in ops["ineq"]:
            K.add_ge(d)
        for v in ops["lo"]:
            K.add_ge({v: 1})
        if dnn:
            for v in names:
                K.add_ge({v: 1})
        k = K.row(cert)
        E = np.eye(len(names))
        K.ge += [(e, -1.0) for e in E] + [(-e, -1.0) for e in E]
        K.c = -k
        s2, x2, f2 = solve_prog(K)
        need(s2 == "optimal" and -f2 > -1e-6 * (1 + np.abs(k).max(initial=0)), "the certificate is non-negative on everything the constraints allow", certificate=cert, value=None if f2 is None else -f2)
        if st == "infeasible" or (relax and f < -1e-6):
            need(set(cert) <= set(ops["known"]), "a certificate of infeasibility is over the known moments", certificate=cert)
            v = sum(w * ops["known"][n] for n, w in cert.items())
            need(v < 0, "the certificate is negative at the values it rejects", certificate=cert, value=v)
    return "trivial" if len(names) < 4 else None


GROUPS["program"] = (gen_program, run_program)
