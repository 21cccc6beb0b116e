"""Contracts on what is done with a solution: what `solve` asks for and reports,
what certificates are, what polynomials in moments evaluate to.

A sum over a dictionary is a sum over a finite family (`SUM`), the same for
families that agree except in terms that are zero.
"""
from pyvc.objvc import Native, Star, Bn, EQ, zb, isclose, ABSENT, strconst
from .state import *
from .state import reg, ATTRS, dct, sdp_self, lp_self, sdp_inv, lp_inv, setup_self, Any, Name, Mon, R, I, B, fn, P_, LP, LPC, SDP, SANITISE, san, rejected, isnum, flags, Status
from .moments import power

UTILS = "inflation/utils.py"
zero = z3.RealVal(0)


def both(name, stubs=None, attrs=None, extra=(), mk=None, **kw):
    """the same contract on both classes"""
    for cls, mod, self_, inv in (("InflationSDP", SDP, sdp_self, sdp_inv), (LPC, LP, lp_self, lp_inv)):
        k = dict(kw)
        setup = k.pop("setup")
        mine = (lambda eng, st, f=self_: mk(eng, st, f)) if mk else self_
        reg(name=f"{cls}.{name}", module=mod, fn=f"{cls}.{name.split('[')[0]}", stubs=stubs, attrs=attrs or ATTRS, setup=setup_self(mine, inv, **setup), **k)


# ---------------------------------------------------------------- polynomials
Expr = Sort("SymbolicExpression")
constant = fn("is_constant", Expr, B)
value_of = fn("value_of_constant", Expr, R)
expanded = fn("expanded", Expr, Expr)
has_coef, coef = fn("has_coefficient", Expr, Any, B), fn("coefficient", Expr, Any, R)
EATTRS = dict(ATTRS)
EATTRS[("SymbolicExpression", "isinstance")] = lambda e, nm: nm == "Expr"
EATTRS[("SymbolicExpression", "free_symbols")] = lambda e: NOT(constant(e))
EATTRS[("SymbolicExpression", "as_coefficients_dict()")] = lambda eng, st, e, args, kw: (lambda s: [(s, eng.alloc(s, DictO(Any, lambda q: has_coef(e, q), lambda q: coef(e, q))))])(st.copy())


def FLOAT(eng, st, args, kw):
    e = args[0]
    if z3.is_expr(e) and e.sort() == Expr:
        return [(s, value_of(e) if t else Exc("TypeError")) for s, t in eng.fork(st, constant(e))]
    return [(st, real(e))]


POLY = dict(_sanitise_moment=SANITISE, _sanitise_monomial=SANITISE, float=FLOAT, expand=lambda eng, st, args, kw: [(st, expanded(args[0]))])


def poly_args(kind):
    def args(eng, st, P):
        if kind == "dictionary":
            d = eng.alloc(st, dct(eng, "polynomial", ksort=Any))
            return [d], {"input_dict": d}
        return [eng.fresh("expression", Expr)]
    return args


def coefficients(eng, r, P, dom, val):
    """r has for each moment the sum of the coefficients of what is recognised as it"""
    k = var(Any, "k")
    q = var(Mon, "q")
    eng.ctx.append(q)
    s = eng.SUM([k], AND(dom(k), NOT(isclose(val(k), zero)), san(k) == q), val(k))
    eng.ctx.pop()
    at = lambda m: z3.substitute(s, (q, m))
    some = lambda m: EX(Any, lambda k: AND(dom(k), NOT(isclose(val(k), zero)), san(k) == m))
    if r.ksort is None:
        return [("nothing has a coefficient", forall(lambda m: NOT(some(m))))]
    return [("the moments with a coefficient are those recognised", forall(lambda m: IFF(r.dom(m), some(m)))),
            ("coefficients of the same moment are added", forall(lambda m: IMP(r.dom(m), EQ(real(r.val(m)), at(m)))))]


def poly_ens(kind):
    def ens(eng, pr, po, v, ctx):
        r = po.obj(v)
        if not isinstance(r, DictO):
            return [("a dictionary is returned", False)]
        if kind == "dictionary":
            d = pr.obj(ctx["args"][0])
            return coefficients(eng, r, pr, d.dom, d.val)
        e = ctx["args"][0]
        if kind == "expression":
            x = expanded(e)
            return coefficients(eng, r, pr, lambda k: has_coef(x, k), lambda k: coef(x, k))
        c, one = value_of(e), pr["One"]
        there = NOT(isclose(c, zero))
        if r.ksort is None:
            return [("a constant is not lost", NOT(there))]
        return [("a constant is a multiple of the unit", forall(lambda m: IFF(r.dom(m), AND(m == one, there)))), ("its coefficient is the constant", IMP(there, EQ(real(r.val(one)), c)))]
    return ens


def unrecognised(kind):
    def f(eng, pr, po, ctx):
        a = ctx["args"][0]
        dom, val = (pr.obj(a).dom, pr.obj(a).val) if kind == "dictionary" else (lambda k: has_coef(expanded(a), k), lambda k: coef(expanded(a), k))
        return [("something is not recognised", EX(Any, lambda k: AND(dom(k), NOT(isclose(val(k), zero)), rejected(k))))]
    return f


both("_sanitise_dict[dictionary]", stubs=POLY, attrs=EATTRS, setup=dict(args=poly_args("dictionary")), ensures=poly_ens("dictionary"), raises={"Exception": unrecognised("dictionary")}, modifies=set())
both("_sanitise_dict[expression]", stubs=POLY, attrs=EATTRS, setup=dict(args=lambda eng, st, P: (lambda e: (setattr(eng, "e", e), [e])[1])(eng.fresh("expression", Expr)), extra=lambda eng, st, P: [("it has symbols", NOT(constant(eng.e)))]),
     ensures=poly_ens("expression"), raises={"Exception": unrecognised("expression")}, modifies=set())
both("_sanitise_dict[constant]", stubs=POLY, attrs=EATTRS, setup=dict(args=lambda eng, st, P: (lambda e: (setattr(eng, "e", e), [e])[1])(eng.fresh("expression", Expr)), extra=lambda eng, st, P: [("it has no symbols", constant(eng.e))]),
     ensures=poly_ens("constant"), modifies=set())


# ----------------------------------------------------------------- evaluation
marg = fn("marginal_of", Any, Mon, R)
symbol = fn("symbol", Mon, R)
RATTRS = dict(ATTRS)
RATTRS[("Mon", "symbol")] = symbol
RATTRS[("Mon", "compute_marginal()")] = lambda eng, st, m, args, kw: [(st, marg(args[0], m))]


def RECOGNISED(eng, st, args, kw):
    """as the contracts of `_sanitise_dict` say: a function of what is given"""
    src = st.heap[args[1].a] if isinstance(args[1], Ref) else args[1]
    if isinstance(src, DictO) and src.ksort == Mon:
        raise Unsupported("recognising moments")
    dom, val = eng.HOF("sd_dom", (src,), B, Mon), eng.HOF("sd_val", (src,), R, Mon)
    eng.sd = dom, val
    st = st.copy()
    return [(st, eng.alloc(st, DictO(Mon, dom, val, 0)))]


def polynomial(eng, st, P):
    return [eng.fresh("polynomial", Any), eng.fresh("prob_array", Any)]


def value_ens(eng, pr, po, v, ctx):
    dom, val = eng.sd
    q, p = var(Mon, "q"), ctx["args"][1]
    return [("the value is the sum of the coefficients times the probabilities", EQ(real(v), eng.SUM([q], dom(q), val(q) * marg(p, q))) if isnum(v) else False)]


both("evaluate_polynomial", stubs=dict(_sanitise_dict=RECOGNISED), attrs=RATTRS, setup=dict(args=polynomial), ensures=value_ens, modifies=set())


def symbols_ens(eng, pr, po, v, ctx):
    dom, val = eng.sd
    q = var(Mon, "q")
    return [("the polynomial is the sum of the coefficients times the symbols", EQ(real(v), eng.SUM([q], dom(q), val(q) * symbol(q))) if isnum(v) else False)]


both("probs_from_dict", stubs=dict(_sanitise_dict=RECOGNISED), attrs=RATTRS, setup=dict(args=lambda eng, st, P: [eng.fresh("polynomial", Any)]), ensures=symbols_ens, modifies=set())


# --------------------------------------------------------------- certificates
def ALLCLOSE(eng, st, args, kw):
    """all entries of a list are close to a number"""
    if len(args) != 2 or kw or not isnum(args[1]):
        raise Unsupported("allclose")
    it = eng.iterate(st, args[0])
    if not isinstance(it, Gen):
        raise Unsupported("allclose")
    return [(st, z3.ForAll(it.vars, z3.Implies(zb(it.cond), isclose(real(it.elem), real(args[1])))))]


def CLEAN(eng, st, args, kw):
    """the contract of `clean_coefficients`: the same keys; a value is a function of all of them and the settings"""
    if kw or len(args) != 3:
        raise Unsupported("clean_coefficients")
    d = st.heap[args[0].a]
    f = eng.HOF("cleaned", (d, args[1], args[2]), R, Name)
    eng.cleaned = f
    st = st.copy()
    return [(st, eng.alloc(st, DictO(Name, d.dom, f)))]


def solved(eng, st, mk):
    r = mk(eng, st)
    a = dict(st.heap[r.a].attrs)
    dual = eng.alloc(st, dct(eng, "dual_certificate", ksort=Name))
    a["solution_object"] = eng.alloc(st, CDict({"dual_certificate": dual, "primal_value": eng.fresh("primal_value", R)}))
    a["monomial_from_name"] = eng.alloc(st, dct(eng, "named", (Mon,), ksort=Name))
    st.heap[r.a] = RecO(st.heap[r.a].cls, a)
    eng.dual = dual
    return r


def unsolved(eng, st, mk):
    r = mk(eng, st)
    a = dict(st.heap[r.a].attrs)
    a["solution_object"] = ABSENT
    a["monomial_from_name"] = eng.alloc(st, dct(eng, "named", (Mon,), ksort=Name))
    st.heap[r.a] = RecO(st.heap[r.a].cls, a)
    return r


def cert_req(eng, st, P):
    d, nm = st.heap[eng.dual.a], P["monomial_from_name"]
    return [("the certificate is over named moments", FA(Name, lambda k: IMP(d.dom(k), nm.dom(k))))]


def cert_ens(clean):
    def ens(eng, pr, po, v, ctx):
        d, nm = pr.st.heap[eng.dual.a], pr["monomial_from_name"]
        r = po.obj(v)
        if not isinstance(r, DictO):
            return [("a dictionary is returned", False)]
        small = FA(Name, lambda k: IMP(d.dom(k), isclose(d.val(k), zero)))
        kept = lambda k, m: AND(d.dom(k), nm.val(k) == m, NOT(flags["is_zero"](m)))
        if r.ksort is None:
            return [("nothing is left only if all coefficients are zero", OR(small, FA(Name, lambda k: NOT(AND(d.dom(k), NOT(flags["is_zero"](nm.val(k))))))))]
        val = d.val
        if clean:
            f = getattr(eng, "cleaned", None)
            if f is None:
                return [("coefficients are cleaned", False)]
            val = f
        k, q = var(Name, "k"), var(Mon, "q")
        eng.ctx.append(q)
        s = eng.SUM([k], kept(k, q), val(k))
        eng.ctx.pop()
        return [("the moments are those named, but the zero ones", forall(lambda m: IFF(r.dom(m), EX(Name, lambda k: kept(k, m))))),
                ("a moment has the sum of the coefficients of its names", forall(lambda m: IMP(r.dom(m), EQ(real(r.val(m)), z3.substitute(s, (q, m))))))]
    return ens


CERT = dict(allclose=ALLCLOSE, clean_coefficients=CLEAN)
for clean in (True, False):
    both(f"certificate_as_dict[{'cleaned' if clean else 'as it is'}]", stubs=CERT, mk=solved, setup=dict(args=lambda eng, st, P, c=clean: [c, eng.fresh("chop_tol", R), eng.fresh("round_decimals", I)], extra=cert_req), ensures=cert_ens(clean), modifies=set())
both("certificate_as_dict[not solved]", stubs=CERT, mk=unsolved, setup=dict(), ensures=lambda eng, pr, po, v, ctx: [("there is no certificate", False)],
     raises={"Exception": (lambda eng, pr, po, ctx: [], set())}, may_not_return=True, settled_by_execution=True, modifies=set())


# ------------------------------------------------------------------- cleaning
from pyvc.objnp import SER_LIB, rounded


def coefficients_setup(eng, st):
    d = eng.alloc(st, dct(eng, "cert", ksort=Name))
    return {"args": [d, eng.fresh("chop_tol", R), eng.fresh("round_decimals", I)], "kw": {}, "assume": []}


def clean_ens(eng, pr, po, v, ctx):
    d, tol, dec = pr.obj(ctx["args"][0]), ctx["args"][1], ctx["args"][2]
    r = po.obj(v)
    if not isinstance(r, DictO):
        return [("a dictionary is returned", False)]
    ab = lambda t: z3.If(t >= 0, t, -t)
    big = lambda k: AND(d.dom(k), ab(d.val(k)) > ab(tol))
    none = FA(Name, lambda k: NOT(d.dom(k)))
    if r.ksort is None:
        return [("nothing is lost", none)]
    # the coefficient everything is divided by
    f = var(R, "f")
    q = var(Name, "q")
    ext = AND(z3.ForAll([q], z3.Implies(zb(big(q)), IT(ab(tol) > 0, f <= ab(d.val(q)), f >= ab(d.val(q))))), z3.Exists([q], zb(AND(big(q), f == ab(d.val(q))))))
    some = z3.Exists([q], zb(big(q)))
    want = lambda k, f: rounded(IT(big(k), d.val(k) / f, zero), dec)
    return [("the keys are the same", FA(Name, lambda k: IFF(r.dom(k), d.dom(k)))),
            ("all is divided by one positive coefficient", IMP(some, z3.Exists([f], z3.And(f > 0, zb(ext), z3.ForAll([q], z3.Implies(zb(d.dom(q)), zb(EQ(real(r.val(q)), want(q, f))))))))),
            ("if all is small then all is zero", IMP(NOT(some), FA(Name, lambda k: IMP(d.dom(k), EQ(real(r.val(k)), rounded(zero, dec))))))]


reg(name="clean_coefficients", module=UTILS, fn="clean_coefficients", stubs=SER_LIB, attrs=ATTRS, setup=coefficients_setup, ensures=clean_ens, modifies=set())


# ------------------------------------------------------------------- solving
Outcome = Sort("Outcome")
HANDED = ("objective", "known_vars", "equalities", "inequalities", "lower_bounds", "upper_bounds")


def PREPARED(eng, st, args, kw):
    """what the contract of the method that prepares the problem describes"""
    st = st.copy()
    ready = {k: eng.fresh("prepared_" + k, Any) for k in HANDED}
    st.heap[eng.record.a] = CDict(dict(st.heap[eng.record.a].items, prepared=eng.alloc(st, CDict(dict(ready)))))
    return [(st, eng.alloc(st, CDict(ready)))]


def SOLVER(eng, st, args, kw):
    if args:
        raise Unsupported("positional arguments of the solver")
    st = st.copy()
    sol = {"success": eng.fresh("success", B), "status": eng.fresh("status", Outcome), "primal_value": eng.fresh("primal_value", R)}
    r = eng.alloc(st, CDict(sol))
    st.heap[eng.record.a] = CDict(dict(st.heap[eng.record.a].items, given=eng.alloc(st, CDict(dict(kw))), times=st.heap[eng.record.a].items["times"] + 1, returned=r))
    return [(st, r)]


def solve_setup(mk, inv, opts, generated=True):
    def setup(eng, st):
        r = mk(eng, st)
        if not generated:
            st.heap[r.a] = RecO(st.heap[r.a].cls, dict(st.heap[r.a].attrs, _relaxation_has_been_generated=False))
        if "InflationLP" in st.heap[r.a].cls[1]:
            st.heap[r.a] = RecO(st.heap[r.a].cls, dict(st.heap[r.a].attrs, default_non_negative=eng.fresh("default_non_negative", B)))
        kw = {k: (eng.fresh(k, srt) if srt is not None else None) for k, srt in opts.items()}
        if "solver_arguments" in kw:
            kw["solver_arguments"] = eng.alloc(st, CDict({"objective": eng.fresh("users_objective", Any)}))
        eng.record = eng.alloc(st, CDict({"times": 0}))
        more = [("the objective in force has its constant term", P_(st, r)["_processed_objective"].dom(P_(st, r)["One"]))] if st.heap[r.a].cls[1] == "InflationSDP" else []
        return {"self": r, "args": [], "kw": kw, "inputs": {k: v for k, v in kw.items() if isinstance(v, Ref)}, "requires": inv(P_(st, r)) + more}
    return setup


def handed_over(eng, pr, po, ctx, flags_, users):
    rec = po.st.heap[eng.record.a].items
    if rec["times"] != 1:
        return None, [("the solver is called once", False)]
    got = po.st.heap[rec["given"].a].items
    want = dict(po.st.heap[rec["prepared"].a].items) if "prepared" in rec else {}
    want.update(users)
    want.update(flags_)
    ens = [("the solver is given what is prepared, the user's arguments and the options", set(got) == set(want))]
    ens += [(f"the solver is given its {k}", k in got and zb(EQ(got[k], v))) for k, v in want.items()]
    return po.st.heap[rec["returned"].a].items, ens


def outcome(eng, pr, po, sol, ok, keep=True):
    """attributes after a solution"""
    a = lambda n: po[n] if po.has(n) else None
    num = isnum(a("objective_value"))
    sign = IT(pr["maximize"], sol["primal_value"], -sol["primal_value"])
    same = lambda x: z3.is_expr(x) and x.sort() == Outcome and zb(x == sol["status"])
    return [("the status is the solver's", same(a("status"))),
            ("success is the solver's", zb(EQ(a("success"), ok))),
            ("a solved problem has the solver's optimum", IMP(ok, AND(EQ(a("primal_objective"), sol["primal_value"]), EQ(a("objective_value"), sign)) if num else False)),
            ("one that is not solved has none", IMP(NOT(ok), AND(same(a("primal_objective")), same(a("objective_value"))) if not num else False))]


def kept(po, ctx, eng):
    r = po.st.heap[ctx["self"].a].attrs["solution_object"]
    return isinstance(r, Ref) and r.a == po.st.heap[eng.record.a].items["returned"].a


def lp_solve_ens(opts, users):
    def ens(eng, pr, po, v, ctx):
        kw = ctx["kw"]
        # with an objective nothing is relaxed; feas_as_optim is the old name of relaxing inequalities
        some = EX(Mon, lambda m: pr["objective"].dom(m))
        rk, ri = kw.get("relax_known_vars", False), kw.get("relax_inequalities", False)
        rk, ri = AND(NOT(some), rk), AND(NOT(some), ri)
        if "feas_as_optim" in kw:
            rk, ri = False, kw["feas_as_optim"]
        fl = dict(relax_known_vars=rk, relax_inequalities=ri, verbose=kw["verbose"] if kw.get("verbose") is not None else pr["verbose"],
                  default_non_negative=kw["default_non_negative"] if kw.get("default_non_negative") is not None else pr["default_non_negative"],
                  solverparameters=kw.get("solverparameters"), solve_dual=kw.get("solve_dual", True))
        sol, e = handed_over(eng, pr, po, ctx, fl, {k: kw[k] for k in users})
        return e if sol is None else e + outcome(eng, pr, po, sol, sol["success"]) + [("the solution is the solver's", kept(po, ctx, eng))]
    return ens


SOLVED = {"status", "success", "primal_objective", "objective_value", "solution_object"}
for variant, opts, users in (("defaults", {}, ()),
                             ("relaxed", dict(relax_known_vars=B, relax_inequalities=B, solve_dual=B, solverparameters=Any, verbose=I, default_non_negative=B), ()),
                             ("feas_as_optim", dict(feas_as_optim=B, relax_known_vars=B), ()),
                             ("user's", dict(objective=Any, lower_bounds=Any, solve_dual=B), ("objective", "lower_bounds"))):
    reg(name=f"{LPC}.solve[{variant}]", module=LP, fn=f"{LPC}.solve", stubs={"_prepare_solver_matrices": PREPARED, "solveLP": SOLVER}, setup=solve_setup(lp_self, lp_inv, opts), ensures=lp_solve_ens(opts, users), modifies=SOLVED)


def sdp_solve_ens(opts):
    def ens(eng, pr, po, v, ctx):
        kw = ctx["kw"]
        # with an objective beyond the constant there is no feasibility problem
        feas = AND(kw.get("feas_as_optim", False), NOT(EX(Mon, lambda m: AND(pr["_processed_objective"].dom(m), m != pr["One"]))))
        vb = kw.get("verbose", -1)
        fl = dict(feas_as_optim=feas, verbose=pr["verbose"] if isinstance(vb, int) and vb == -1 else IT(vb == -1, pr["verbose"], vb),
                  solverparameters=kw.get("solverparameters"), solve_dual=kw.get("solve_dual", True))
        users = pr.st.heap[kw["solver_arguments"].a].items if "solver_arguments" in kw else {}
        sol, e = handed_over(eng, pr, po, ctx, fl, users)
        return e if sol is None else e + outcome(eng, pr, po, sol, sol["status"] == strconst("feasible", Outcome)) + [("the solution is the solver's", kept(po, ctx, eng))]
    return ens


for variant, opts in (("defaults", {}), ("options", dict(feas_as_optim=B, solve_dual=B, solverparameters=Any, verbose=I)), ("user's", dict(solver_arguments=Any, solve_dual=B))):
    reg(name=f"InflationSDP.solve[{variant}]", module=SDP, fn="InflationSDP.solve", stubs={"_prepare_solver_arguments": PREPARED, "solveSDP_MosekFUSION": SOLVER}, setup=solve_setup(sdp_self, sdp_inv, opts),
        ensures=sdp_solve_ens(opts), modifies=SOLVED)
reg(name="InflationSDP.solve[nothing generated]", module=SDP, fn="InflationSDP.solve", stubs={"_prepare_solver_arguments": PREPARED, "solveSDP_MosekFUSION": SOLVER}, setup=solve_setup(sdp_self, sdp_inv, {}, False),
    ensures=lambda eng, pr, po, v, ctx: [("an exception is raised", False)], raises={"Exception": (lambda eng, pr, po, ctx: [], set())}, may_not_return=True, settled_by_execution=True, modifies=set())


# ------------------------------------------------------ forms of a certificate
certificate = fn("certificate", Any, B, R, I, Any)
of_certificate, value_at = fn("polynomial_of", Any, Any), fn("value_at", Any, Any, R)
TOL = z3.RealVal("1e-10")


def CERTIFICATE(eng, st, args, kw):
    """the certificate cleaned as asked (the contract of `certificate_as_dict`)"""
    names, given = ("clean", "chop_tol", "round_decimals"), dict(zip(("clean", "chop_tol", "round_decimals"), args[1:]))
    if set(kw) - set(names) or set(kw) & set(given):
        raise Unsupported("certificate_as_dict")
    given.update(kw)
    c, t, d = given.get("clean", True), given.get("chop_tol", TOL), given.get("round_decimals", 3)
    return [(st, certificate(eng.sol, zb(c), real(t), it(d)))]


def it(x):
    return z3.IntVal(x) if isinstance(x, int) else x


FORMS = dict(certificate_as_dict=CERTIFICATE, probs_from_dict=lambda eng, st, args, kw: [(st, of_certificate(args[1]))],
             evaluate_polynomial=lambda eng, st, args, kw: [(st, value_at(args[1], kw["prob_array"] if "prob_array" in kw else args[2]))])


def with_solution(eng, st, mk):
    r = mk(eng, st)
    eng.sol = st.heap[r.a].attrs["solution_object"]
    return r


both("certificate_as_probs", stubs=FORMS, mk=with_solution, setup=dict(args=lambda eng, st, P: [eng.fresh("clean", B), eng.fresh("chop_tol", R), eng.fresh("round_decimals", I)]),
     ensures=lambda eng, pr, po, v, ctx: [("the polynomial is that of the certificate cleaned as asked", EQ(v, of_certificate(certificate(eng.sol, *ctx["args"]))))], modifies=set())
both("evaluate_certificate", stubs=FORMS, mk=with_solution, setup=dict(args=lambda eng, st, P: [eng.fresh("prob_array", Any)]),
     ensures=lambda eng, pr, po, v, ctx: [("the value is that of the certificate at the distribution", EQ(v, value_at(certificate(eng.sol, True, TOL, 3), ctx["args"][0])))], modifies=set())
