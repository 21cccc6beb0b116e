"""C10: the semidefinite program handed to the solver is the stated one, and what is reported is read off that program."""
from .base import *
from . import scen, prog, sdpspy, lpspy
from .sdpspy import SProg
import numpy as np


def num(rng):
    return rng.choice([1, -1, 2, -2, 0.5, -0.5, 3, 0.25, 1.5, -1.25, 1, -1])


def rand_sdp(rng):
    dim = rng.choice([0, 1, 2, 2, 3, 3, 4])
    n = rng.randint(2, 7)
    names = ["1"] + rng.sample(["x", "y", "z", "w", "P[A=0]", "v3", "b", "u", "lambda"], n - 1)
    if rng.random() < .3:
        names.append("0")
    mat = None
    if dim:
        mat = [[None] * dim for _ in range(dim)]
        for i in range(dim):
            for j in range(i, dim):
                mat[i][j] = mat[j][i] = rng.choice(names)
        if rng.random() < .7:
            mat[0][0] = "1"

    def row():
        k = rng.randint(1, min(4, len(names)))
        return {v: num(rng) for v in rng.sample(names, k)}
    ineq = [row() for _ in range(rng.randint(0, 3))]
    eq = [row() for _ in range(rng.randint(0, 2))]
    known = {}
    for v in names:
        if v == "1":
            known[v] = 1.0
        elif v == "0":
            known[v] = 0.0
        elif rng.random() < .25:
            known[v] = rng.choice([0.5, 0.25, 0, 0.125, 0.7, -0.5])
    if rng.random() < .1:
        known.pop("1")
    semi = {}
    free = [v for v in names if v not in known]
    if len(free) > 1 and rng.random() < .45:
        rng.shuffle(free)
        k = rng.randint(1, len(free) - 1)
        for a in free[:k]:
            semi[a] = [rng.choice([0.5, 0.25, 2, 0.3]), rng.choice(free[k:])]
    if free and len(known) > 1 and rng.random() < .2:
        # the rest of a product may have been given a value too
        a = rng.choice(free)
        if all(b != a for _, b in semi.values()):
            semi[a] = [rng.choice([0.5, 0.25, 2, 0.3]), rng.choice(sorted(known))]
    obj = {v: num(rng) for v in rng.sample(names, rng.randint(1, min(4, len(names))))} if rng.random() < .6 else {}
    if mat is not None:
        # every variable of the objective or of a semiknown relation appears somewhere else
        here = {v for r in mat for v in r}
    else:
        here = set()
    here |= {v for r in ineq + eq for v in r}
    # a semiknown variable and the variable it is a multiple of both occur
    semi = {a: s for a, s in semi.items() if a in here}
    obj = {v: c for v, c in obj.items() if v in here or v in known}
    if any(b == "lambda" and b not in here for _, b in semi.values()):
        semi = {}
    return dict(names=names, mat=mat, obj=obj, ineq=ineq, eq=eq, known=known, semi=semi)


def stated(c, lam=None):
    names = list(c["names"])
    dim = len(c["mat"]) if c["mat"] else 0
    if lam:
        names = names + [lam]
    P = SProg(names, dim)
    for i in range(dim):
        for j in range(dim):
            P.G[P.ix[c["mat"][i][j]], i, j] += 1
    if lam:
        P.c[-1] = 1
        P.G[-1] = -np.eye(dim)
    else:
        P.c = P.row(c["obj"])
    defs = {}
    for v, x in c["known"].items():
        defs[v] = (P.row({v: 1}), float(x))
    for a, (k, b) in c["semi"].items():
        defs[a] = (P.row({a: 1}) - k * P.row({b: 1}), 0.0)
    P.eq += list(defs.values())
    for r in c["ineq"]:
        P.add_ge(r)
    for r in c["eq"]:
        P.add_eq(r)
    if c.get("dnn"):
        for v in c["names"]:
            if v not in c["known"]:
                P.add_ge({v: 1})
    return P, defs


def certificate(c, P, lam, status, a, col):
    """what the certificate must be, given the multipliers the solver reported"""
    out = {v: 0.0 for v in c["known"]}
    c = dict(c)
    G = P.G.copy()
    for x, (k, b) in c["semi"].items():
        if b in out and c.get("process", True):
            # a multiple of a known variable counts for that variable
            G[P.ix[b]] += k * G[P.ix[x]]
            c["obj"] = dict(c["obj"])
            c["obj"][b] = c["obj"].get(b, 0) + k * c["obj"].pop(x, 0)
            for w in ("ineq", "eq"):
                c[w] = [{**{v: q for v, q in d.items() if v != x}, b: d.get(b, 0) + k * d[x]} if x in d else d for d in c[w]]
        elif b in out:
            c["eq"] = c["eq"] + [{x: 1, b: -k}]
    if not lam and status == "feasible":
        for v, k in c["obj"].items():
            if v in out:
                out[v] += k
    if P.dim:
        for v in out:
            out[v] += float((a.Z[0] * G[P.ix[v]]).sum())

    def reduced(d):
        r = np.zeros(len(a.w))
        h = 0.0
        todo = list(d.items())
        n = 0
        while todo:
            v, k = todo.pop()
            n += 1
            if n > 1000:
                raise Skip("circular")
            if v in col:
                r[col[v]] += k
            elif v in c["known"]:
                h -= k * c["known"][v]
            elif v in c["semi"]:
                todo.append((c["semi"][v][1], k * c["semi"][v][0]))
            else:
                raise Broken(f"{v} is neither known nor a variable of the program")
        return r, h
    for rows, mult in ((c["ineq"], sdpspy.mult_ge), (c["eq"], sdpspy.mult_eq)):
        for d in rows:
            r, h = reduced(d)
            m = mult(r, h, a.w)
            if abs(max(np.abs(r).max(initial=0), abs(h))) < 1e-9:
                continue
            for v, k in d.items():
                if v in out:
                    out[v] += m * k
    return out


def check_reports(c, P, lam, status, sol, form, a, col, mode, fold):
    need(abs(sol["primal_value"] - a.value) < 1e-9 and abs(sol["dual_value"] - a.value) < 1e-9 if status == "feasible" else True,
         "the reported values are those of the solver", mode=mode, want=a.value, got=[sol["primal_value"], sol["dual_value"]])
    if P.dim and (status == "feasible" or mode == "primal" and status == "unbounded"):
        x = np.zeros(len(P.names))
        for v in P.names:
            if v in col:
                x[P.ix[v]] = a.vals[col[v]]
            elif v in c["known"]:
                x[P.ix[v]] = c["known"][v]
        for v, (k, b) in c["semi"].items():
            if v not in col:
                x[P.ix[v]] = k * x[P.ix[b]]
        want = np.tensordot(x, P.G, 1)
        F = sol["F"]
        F = F.toarray() if hasattr(F, "toarray") else np.asarray(F)
        need(F.shape == want.shape and np.abs(F - want).max(initial=0) < 1e-6, "the reported moment matrix is the one at the reported moments", mode=mode, want=want, got=F)
    if P.dim and status != "unbounded":
        Z = np.asarray(sol["Z"])
        need(Z.shape == a.Z[0].shape and np.abs(Z - a.Z[0]).max(initial=0) < 1e-6, "the reported dual matrix is the multiplier of the moment matrix (positive semidefinite)", mode=mode, status=status, want=a.Z[0], got=Z)
    if status == "unbounded":
        return
    want = certificate(c, P, lam, status, a, col)
    cert = sol["dual_certificate"]
    need(set(cert) <= set(want), "the certificate is over the known variables", mode=mode, got=sorted(cert))
    if fold:
        # terms of the objective over known moments may be reported with the constants
        tot = lambda q: sum(q.get(v, 0.0) * c["known"][v] for v in want)
        need(abs(tot(cert) - tot(want)) < 1e-6 * (1 + abs(tot(want))), "the value of the certificate at the known values is the bound it certifies", mode=mode, want=tot(want), got=tot(cert))
        want = {v: k for v, k in want.items() if not c["known"][v] == 1.0 and (v not in c["obj"] or status == "infeasible")}
    for v in want:
        need(abs(cert.get(v, 0.0) - want[v]) < 1e-6, "the certificate collects objective, matrix and constraint terms of each known variable", mode=mode, var=v, want=want[v], got=cert.get(v, 0.0))


def gen_entry(rng, tier):
    while True:
        c = rand_sdp(rng)
        if c["mat"] is None and not (c["ineq"] or c["eq"]):
            continue
        # (a multiple of a negative known value is not a non-negative variable)
        c["dnn"] = rng.random() < .3 and not any(c["known"].get(b, 0) < 0 for _, b in c["semi"].values())
        c["feas"] = rng.random() < .25 and c["mat"] is not None
        c["process"] = rng.random() < .75
        c["status"] = rng.choice(["feasible", "feasible", "feasible", "infeasible", "infeasible", "unbounded", "unknown"])
        c["dual"] = rng.random() < .5
        c["seed"] = rng.randrange(10**6)
        c["form"] = rng.choice(["coo", "coo", "lil", "dense"])
        c["less"] = rng.random() < .3
        free = [v for v in c["names"] if v not in c["known"] and v not in c["semi"]]
        here = {v for r in c["ineq"] + c["eq"] for v in r} | ({v for r in c["mat"] for v in r} if c["mat"] else set())
        if not [v for v in free if v in here]:
            continue
        yield c


def run_entry(c):
    from inflation.sdp import sdp_utils
    import scipy.sparse as sp
    c = dict(c)
    here = {v for r in c["ineq"] + c["eq"] for v in r} | ({v for r in c["mat"] for v in r} if c["mat"] else set()) | set(c["obj"])
    for a, (k, b) in c["semi"].items():
        here |= {a, b}
    c["names"] = [v for v in c["names"] if v in here]
    known = c["known"]
    c["known"] = {v: x for v, x in known.items() if v in here}
    masks = {}
    if c["mat"] is not None:
        M = np.array(c["mat"], dtype=object)
        mk = {"coo": sp.coo_array, "lil": sp.lil_array, "dense": sp.coo_array}[c["form"]]
        masks = {v: mk((M == v)) for v in c["names"] if (M == v).any() or v in ("1", "x")}
    lam = None
    if c["feas"]:
        lam = "lambda"
        while lam in c["names"]:
            lam += "_"
    P, defs = stated(c, lam)
    if sdpspy.affine_hull(P) is None and c["status"] == "feasible":
        pass
    args = dict(mask_matrices=masks, objective=dict(c["obj"]), known_vars=dict(known), semiknown_vars={k: tuple(v) for k, v in c["semi"].items()},
                inequalities=[dict(r) for r in c["ineq"]], equalities=[dict(r) for r in c["eq"]])
    if c["less"]:
        args = {k: v for k, v in args.items() if v}
    before = repr({k: v for k, v in args.items() if k != "mask_matrices"})
    mode = "dual" if c["dual"] else "primal"

    def solve(status):
        with sdpspy.spy(status, c["seed"]) as log, prog.quiet():
            sol = sdp_utils.solveSDP_MosekFUSION(**args, solve_dual=c["dual"], default_non_negative=c["dnn"], feas_as_optim=c["feas"], process_constraints=c["process"])
        return sol, log
    sol, log = solve(c["status"])
    need(len(log) == 1, "one program is solved", n=len(log), reported=sol)
    need(repr({k: v for k, v in args.items() if k != "mask_matrices"}) == before, "the caller's arguments are left as they were")
    d, form, a = log[0]
    want = {"feasible": "feasible", "unknown": "unknown", "infeasible": "infeasible"}.get(c["status"])
    need(sol["status"] == want if want else sol["status"] != "feasible", "the status is the solver's", solver=c["status"], got=sol["status"], error=sol.get("error"))
    if c["status"] == "unknown":
        return "trivial"
    x = sol["x"]
    if c["status"] != "feasible":
        # which variable is which is read off the answer to the same call when the solver has a solution
        ref, l2 = solve("feasible")
        if not same_form(form, l2[0][1]) or ref["status"] != "feasible":
            raise Skip("variables come in another order each time")
        x = ref["x"]
    check_all(c, P, defs, lam, sol, x, form, a, mode)
    return "trivial" if not P.dim else None


def same_form(f, g):
    eq = lambda a, b: len(a) == len(b) and all(np.array_equal(r, q) and h == k for (r, h), (q, k) in zip(a, b))
    return (f.kind == g.kind and np.array_equal(f.c, g.c) and eq(f.ge, g.ge) and eq(f.eq, g.eq)
            and len(f.blocks) == len(g.blocks) and all(np.array_equal(a, b) and np.array_equal(p, q) for (a, p), (b, q) in zip(f.blocks, g.blocks)))


def check_all(c, P, defs, lam, sol, x, form, a, mode, fold=False):
    x = dict(x)
    if lam and lam not in x:
        # whatever the added variable is called
        new = [v for v in x if v not in P.names]
        if len(new) == 1:
            x[lam] = x.pop(new[0])
    for v in list(x):
        if v in defs and not any(abs(a.vals[i] - x[v]) < 1e-9 for i in range(form.size)):
            r, h = defs[v]
            full = np.array([x.get(u, c["known"].get(u, 0.0)) for u in P.names])
            need(abs(r @ full - h) < 1e-6, "the value reported for a variable fixed by the others obeys its definition", var=v, got=x[v])
            del x[v]
    need(all(v in P.ix for v in x), "only variables of the program are reported", got=sorted(x))
    col, msg = sdpspy.locate(form, a, x, P.names)
    need(col is not None, msg, mode=mode)
    Q, msg = sdpspy.handed(form, col, P, defs)
    need(Q is not None, msg, mode=mode)
    m = sdpspy.same(P, Q)
    need(not m, f"the program handed to the solver ({mode}) is not the stated one: {m}")
    check_reports(c, P, lam, c["status"], sol, form, a, col, mode, fold)


GROUPS = {"entry": (gen_entry, run_entry)}


# ------------------------------------------------------------ whole programs
def gen_program(rng, tier):
    for P in prog.stream_sdp(rng, 10):
        yield dict(P=P, cols=rng.choice(["npa1", "npa1", "npa2", "local1", "physical2"]), seed=rng.randrange(10**6),
                   kw=rng.choice([{}, {}, {"supports_problem": True}, {"include_all_outcomes": True}]),
                   what=rng.choice(["feas", "feas", "obj", "min"]), dist=rng.choice(["none", "some", "all", "all"]), lpi=rng.random() < .5,
                   extra=rng.random() < .4, bounds=rng.random() < .4, dual=rng.random() < .5, fo=rng.random() < .3,
                   status=rng.choice(["feasible", "feasible", "infeasible"]), order=rng.random() < .5)


def run_program(c):
    import random as R
    import warnings
    from .c07 import distribution
    rng = R.Random(c["seed"])
    s = prog.new_sdp(c["P"], c["cols"], **c["kw"])
    supp = bool(c["kw"].get("supports_problem"))
    if s.n_columns > 18 or len(s.moments) > 150:
        raise Skip("large")
    names = [m.name for m in s.moments]
    if "1" not in names:
        names.append("1")
    need(len(set(names)) == len(names), "moments have distinct names")
    st = dict(known={"1": 1.0}, semi={}, ineq=[], eq=[], obj={})
    if "0" in names:
        st["known"]["0"] = 0.0
    sign = -1 if c["what"] == "min" and not supp else 1
    lo = {m.name: 0.0 for m in s.hermitian_moments}
    up = {}

    def values():
        if c["dist"] == "none":
            return
        p = distribution(c["P"], c["seed"], rng.choice(["random", "deterministic"]))
        if c["dist"] == "all":
            s.set_distribution(p, use_lpi_constraints=c["lpi"])
        else:
            ks = list(s.knowable_atoms)
            if not ks:
                return
            rng.shuffle(ks)
            s.set_values({m: m.compute_marginal(p) for m in ks[:max(1, len(ks) // 2)]}, use_lpi_constraints=c["lpi"])
        st["known"].update({k.name: float(v) for k, v in s.known_moments.items()})
        st["semi"] = {k.name: (float(v[0]), v[1].name) for k, v in s.semiknown_moments.items()}

    def objective():
        if c["what"] == "feas":
            return
        pick = [n for n in names if n != "0"]
        for m in rng.sample(pick, min(len(pick), rng.randint(1, 4))):
            st["obj"][m] = num(rng)
        s.set_objective(dict(st["obj"]), "max" if c["what"] == "obj" else "min")
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if supp:
            values()
            for k in list(st["known"]):
                pass
        elif c["order"]:
            objective()
            values()
        else:
            values()
            objective()
        if c["extra"]:
            for k in range(rng.randint(0, 2)):
                st["eq"].append({m: num(rng) for m in rng.sample(names, min(len(names), 3))})
            for k in range(rng.randint(0, 2)):
                st["ineq"].append({m: num(rng) for m in rng.sample(names, min(len(names), 3))})
            s.set_extra_equalities([dict(d) for d in st["eq"]])
            s.set_extra_inequalities([dict(d) for d in st["ineq"]])
        if c["bounds"] and not supp:
            free = [n for n in names if n not in st["known"]]
            b1 = {m: rng.choice([.05, .1]) for m in rng.sample(free, min(len(free), rng.randint(0, 2)))}
            b2 = {m: rng.choice([1, .5, .75, 0.0]) for m in rng.sample(free, min(len(free), rng.randint(0, 2)))}
            if b1:
                s.set_bounds(dict(b1), "lo")
                lo.update(b1)
            if b2:
                s.set_bounds(dict(b2), "up")
                up.update(b2)
    kn = dict(s.known_moments)
    ct = s.constant_term_name
    if ct not in names:
        names.append(ct)
    st["known"][ct] = 1.0
    if supp:
        st["known"] = {ct: 1.0}
        st["known"].update({k.name: float(v) for k, v in kn.items()})
        st["semi"] = {}
        lo = {k.name: float(v) for k, v in s.moment_lowerbounds.items()}
    for m in s.minimal_equalities:
        st["eq"].append({k.name: v for k, v in m.items()})
    for v, b in lo.items():
        if v not in kn_names(kn):
            st["ineq"].append({v: 1, ct: -b} if b else {v: 1})
    for v, b in up.items():
        st["ineq"].append({v: -1, ct: b} if b else {v: -1})
    obj = {k: sign * v for k, v in st["obj"].items()}
    fo = c["fo"] and not st["obj"]
    idx = {m.idx: m.name for m in s.moments}
    mat = [[idx[int(i)] for i in row] for row in np.asarray(s.momentmatrix)]
    extra_names = {b for _, b in st["semi"].values()} - set(names)
    full = names + sorted(extra_names)
    spec = dict(names=full, mat=mat, obj=obj, ineq=st["ineq"], eq=st["eq"], known={k: v for k, v in st["known"].items()}, semi=st["semi"], dnn=False, status=c["status"])
    lam = "lambda" if fo else None
    for k in spec["known"]:
        if k not in spec["names"]:
            spec["names"].append(k)
    P, defs = stated(spec, lam)

    def solve(status):
        with sdpspy.spy(status, c["seed"]) as log, prog.quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s.solve(solve_dual=c["dual"], feas_as_optim=fo)
        return log
    mode = "dual" if c["dual"] else "primal"
    log = solve(c["status"])
    need(len(log) == 1, "one program is solved", n=len(log), reported=s.solution_object)
    sol = s.solution_object
    need(sol["status"] == c["status"] and bool(s.success) == (c["status"] == "feasible"), "the status is the solver's", solver=c["status"], got=sol["status"], error=sol.get("error"))
    d, form, a = log[0]
    need(dict(s.known_moments) == kn, "solving leaves the settings as they were")
    if c["status"] == "feasible":
        need(abs(s.primal_objective - a.value) < 1e-9, "the reported optimum is that of the program", want=a.value, got=s.primal_objective)
        need(abs(s.objective_value - sign * a.value) < 1e-9, "the reported objective value is that of the stated direction", want=sign * a.value, got=s.objective_value)
    else:
        need(s.objective_value == s.status, "a program without optimum reports its status", got=s.objective_value)
    x = sol["x"]
    if c["status"] != "feasible":
        l2 = solve("feasible")
        if not same_form(form, l2[0][1]):
            raise Skip("variables come in another order each time")
        x = s.solution_object["x"]
        s.solution_object = sol
    check_all(spec, P, defs, lam, sol, x, form, a, mode, fold=True)
    return "trivial" if len(mat) < 3 else None


def kn_names(kn):
    return {m.name for m in kn}


GROUPS["program"] = (gen_program, run_program)
