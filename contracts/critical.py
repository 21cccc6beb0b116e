"""Contracts on the search for critical parameters.

The program is asked through three calls whose order and arguments are recorded; what
it answers is arbitrary.
"""
from pyvc.objnp import Arr, LIB, new
from pyvc.objvc import Native, EQ, real, CDict
from .state import *
from .state import reg, ATTRS, LP, Any, R, I, B, fn
from .state import dct
from .moments import Param, Expr, NATTRS, is_symbolic

OU = "inflation/optimization_utils.py"
numeric = fn("values_at", Any, R, Any)


class Cert(Native):
    """a certificate: a dictionary of which only the size is looked at"""
    def __init__(self, n):
        self.n = n

    def length(self, eng, st):
        return [(st, self.n)]


def note(st, ref, what, **more):
    st = st.copy()
    o = st.heap[ref.a]
    st.heap[ref.a] = RecO(o.cls, dict(o.attrs, calls=o.attrs["calls"] + (what,), **more))
    return st


def asked(args, kw, names, defaults):
    a = dict(zip(names, args))
    if set(a) & set(kw) or set(kw) - set(names):
        raise Unsupported("arguments")
    return tuple({**defaults, **a, **kw}[n] for n in names)


def SET(eng, st, args, kw):
    return [(note(st, args[0], ("set",) + asked(args[1:], kw, ("values", "use_lpi_constraints", "only_specified_values"),
                                               {"values": None, "use_lpi_constraints": False, "only_specified_values": False})), None)]


def SOLVE(eng, st, args, kw):
    v = eng.fresh("optimum", R)
    return [(note(st, args[0], ("solve", v) + asked(args[1:], kw, ("interpreter", "feas_as_optim", "solve_dual", "solverparameters", "solver_arguments"),
                                                   {"interpreter": "MOSEKFusion", "feas_as_optim": False, "solve_dual": True, "solverparameters": None, "solver_arguments": None}),
                  objective_value=v), None)]


def CERT(eng, st, args, kw):
    c = Cert(eng.fresh("terms", I))
    return [(note(st, args[0], ("certificate", c)), c)]


def NUMERICAL(eng, st, args, kw):
    """make_numerical by its contract: the expressions at the values given, numbers kept"""
    o = st.heap[args[1].a]
    if not isinstance(o, DictO) or o.ksort != Param or kw or len(args) != 2:
        raise Unsupported("make_numerical")
    eng.oblige(st, FA(Param, lambda q: IFF(o.dom(q), q == eng.param)), "expressions are evaluated at a value of the parameter, and nothing else", "pre")
    return [(st, numeric(args[0], real(o.val(eng.param))))]


def BISECT(eng, st, args, kw):
    """scipy's bisect: the function is asked at any points, and a number comes back"""
    if len(args) != 3:
        raise Unsupported("bisect")
    f, a, b = args
    prog = eng.program
    g = eng.opts
    seen = asked_at(st.heap[prog.a].attrs["calls"])
    for nm, t in (("at the upper bound the program is infeasible", OR(*[AND(EQ(v, numeric(eng.symbolic, g["hi"])), o < 0) for v, o in seen])),
                  ("at the lower bound it is feasible", OR(*[AND(EQ(v, numeric(eng.symbolic, g["lo"])), o > -g["precision"] / 1000) for v, o in seen]))):
        eng.oblige(st, t, f"the search starts when {nm}", "post")
    s = st.copy()
    o = s.heap[prog.a]
    s.heap[prog.a] = RecO(o.cls, dict(o.attrs, calls=(), objective_value=eng.fresh("before", R)))
    x = eng.fresh("x", R)
    for s2, r in eng.call(s, f, [x], {}):
        check(eng, s2, r, x, "at any value")
    st = st.copy()
    o = st.heap[prog.a]
    root = eng.fresh("root", R)
    st.heap[prog.a] = RecO(o.cls, dict(o.attrs, calls=(), searched=(real(a), real(b), dict(kw), root)))
    return [(st, root)]


def asked_at(calls):
    """(values, optimum) of what was solved"""
    c = [z for z in calls if z[0] != "certificate"]
    if [z[0] for z in c] != ["set", "solve"] * (len(c) // 2) or not all(z3.is_expr(z[1]) for z in c):
        return []
    return [(p[1], q[1]) for p, q in zip(c[::2], c[1::2])]


def refused(eng, pr, po, ctx):
    """only programs that do not change from feasible to infeasible are turned down"""
    g = eng.opts
    seen = asked_at(po.st.heap[eng.program.a].attrs["calls"])
    return [("the upper bound is not infeasible, or the lower one not feasible",
             OR(*[OR(AND(EQ(v, numeric(eng.symbolic, g["hi"])), o >= -g["precision"] / 1000),
                     AND(EQ(v, numeric(eng.symbolic, g["lo"])), o <= g["precision"] / 1000)) for v, o in seen]))]


def check(eng, s2, r, x, where):
    """what is asked for one value, and what is made of the answer"""
    c = [z for z in s2.heap[eng.program.a].attrs["calls"] if z[0] != "certificate"]
    g = eng.opts
    ok = [z[0] for z in c] == ["set", "solve"]
    eng.oblige(s2, ok and not isinstance(r, Exc), f"{where}: values are set, and the program is solved, once", "post")
    if not ok or isinstance(r, Exc):
        return
    (_, vals, lpi, only), (_, opt, _, feas, dual, par, sa) = c
    same = lambda p, q: (p is q or (z3.is_expr(p) and z3.is_expr(q) and EQ(p, q)) or (isinstance(p, bool) and isinstance(q, bool) and p == q)
                         or (isinstance(p, bool) and z3.is_expr(q) and EQ(zb(p), q)) or (isinstance(q, bool) and z3.is_expr(p) and EQ(zb(q), p)) or False)
    for nm, t in (("the values are the expressions there", EQ(vals, numeric(eng.symbolic, x)) if z3.is_expr(vals) else False),
                  ("linear constraints are used as asked", same(lpi, g["use_lpi_constraints"])),
                  ("only the values given are used as asked", same(only, g["only_specified_values"])),
                  ("the program is relaxed to an optimisation", same(feas, True)),
                  ("the primal or dual is solved as asked", same(dual, g["solve_dual"])),
                  ("with the parameters given", same(par, g["solverparameters"]) and sa is None),
                  ("what is searched for a zero is its optimum, up to a small fraction of the precision",
                   AND(real(r) >= opt - g["precision"] / 1000, real(r) <= opt + g["precision"] / 1000) if isnum(r) else False)):
        eng.oblige(s2, t, f"{where}: {nm}", "post")


def ARRAY(eng, st, args, kw):
    if len(args) == 1 and not kw and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], LstO):
        ps = [p[1] for p in st.heap[args[0].a].parts]
        return new(eng, st, Arr(len(ps), lambda i: pick([real(p) for p in ps], i)))
    raise Unsupported("array")


def pick(ps, i):
    if isinstance(i, int):
        return ps[i]
    t = ps[-1]
    for k in reversed(range(len(ps) - 1)):
        t = z3.If(i == k, ps[k], t)
    return t


def bisect_setup(given, xtol):
    def f(eng, st):
        eng.param = eng.fresh("param", Param)
        eng.symbolic = eng.fresh("symbolic_values", Any)
        eng.program = eng.alloc(st, RecO((LP, "InflationLP"), {"objective_value": eng.fresh("before", R), "calls": ()}))
        if given:
            lo, hi = eng.fresh("lower", R), eng.fresh("upper", R)
            kw = {"bounds": eng.alloc(st, Arr(2, lambda i: pick([lo, hi], i))), "only_specified_values": eng.fresh("only", B), "return_last_certificate": False,
                  "precision": eng.fresh("precision", R), "use_lpi_constraints": eng.fresh("lpi", B), "verbose": False, "solve_dual": eng.fresh("dual", B),
                  "solverparameters": eng.fresh("parameters", Any)}
        else:
            lo, hi, kw = z3.RealVal(0), z3.RealVal(1), {}
        eng.opts = {"lo": lo, "hi": hi, "only_specified_values": False, "use_lpi_constraints": False, "precision": z3.RealVal("1/10000"), "solve_dual": True, "solverparameters": None}
        eng.opts.update({k: v for k, v in kw.items() if k in eng.opts})
        if xtol:
            kw["xtol"] = eng.fresh("xtol", R)
            kw["maxiter"] = eng.fresh("maxiter", I)
        return {"args": [eng.program, eng.symbolic, eng.param], "kw": kw, "requires": [("the precision is positive", eng.opts["precision"] > 0)]}
    return f


def bisect_ens(eng, pr, po, v, ctx):
    at = po.st.heap[eng.program.a].attrs
    if "searched" not in at:
        return [("a zero is searched", False)]
    a, b, kw, root = at["searched"]
    g, given = eng.opts, ctx["kw"]
    tol = kw.get("xtol")
    return [("between the bounds", AND(EQ(a, g["lo"]), EQ(b, g["hi"]))),
            ("to the precision asked for", EQ(real(tol), given["xtol"] if "xtol" in given else g["precision"]) if tol is not None else False),
            ("with the options given", all(k in ("xtol", "full_output") or given.get(k) is w for k, w in kw.items()) and all(k in kw for k in ("maxiter",) if k in given)),
            ("and where it is found is returned", EQ(real(v), root) if isnum(v) else False)]


SLIB = dict(LIB, set_values=SET, solve=SOLVE, certificate_as_dict=CERT, make_numerical=NUMERICAL, bisect=BISECT, array=ARRAY)
for nm, given, xtol in (("", True, False), ("[defaults]", False, False), ("[options]", True, True)):
    reg(name="_maximize_via_bisect" + nm, module=OU, fn="_maximize_via_bisect", attrs=ATTRS, stubs=SLIB, setup=bisect_setup(given, xtol), ensures=bisect_ens,
        raises={"AssertionError": refused})


# ---------------------------------------------------------- what is searched for
has_param = fn("contains_parameter", Expr, Param, B)
SATTRS = dict(NATTRS)


def ATOMS(eng, st, e, args, kw):
    """the symbols of an expression"""
    st = st.copy()
    return [(st, eng.alloc(st, SetO(Param, lambda q: has_param(e, q))))]


SATTRS[("Expr", "atoms()")] = ATOMS
found = fn("search", I, Any, R)


def SEARCH(how):
    def f(eng, st, args, kw):
        st = st.copy()
        o = st.heap[eng.program.a]
        r = eng.fresh("found", Any)
        st.heap[eng.program.a] = RecO(o.cls, dict(o.attrs, searched=o.attrs["searched"] + ((how, args, dict(kw), r),)))
        return [(st, r)]
    return f


def feasible_setup(how):
    def f(eng, st):
        d = eng.alloc(st, dct(eng, "values", (Expr,)))
        eng.program = eng.alloc(st, RecO((LP, "InflationLP"), {"searched": ()}))
        return {"args": [eng.program, d, how], "kw": {"return_last_certificate": eng.fresh("return_last", B), "precision": eng.fresh("precision", R)}}
    return f


def params(eng, pr, ctx):
    d = pr.obj(ctx["args"][1])
    return lambda q: EX(d.ksort, lambda k: AND(d.dom(k), is_symbolic(d.val(k)), has_param(d.val(k), q)))


def feasible_ens(how):
    def ens(eng, pr, po, v, ctx):
        c = po.st.heap[eng.program.a].attrs["searched"]
        if len(c) != 1:
            return [("one search is made", False)]
        w, a, kw, r = c[0]
        P = params(eng, pr, ctx)
        ok = len(a) == 3 and isinstance(a[0], Ref) and a[0].a == eng.program.a and isinstance(a[1], Ref) and a[1].a == ctx["args"][1].a and z3.is_expr(a[2]) and a[2].sort() == Param
        return [("by the method asked for", w == how),
                ("of the program, its values and the parameter", ok),
                ("which is the only one in the values", FA(Param, lambda q: IFF(P(q), q == a[2])) if ok else False),
                ("the options are passed on", set(kw) == {"return_last_certificate", "precision"} and all(EQ(kw[k], ctx["kw"][k]) for k in kw)),
                ("what is found is returned", EQ(v, r))]
    return ens


def unsuited(eng, pr, po, ctx):
    P = params(eng, pr, ctx)
    q, p = var(Param, "q"), var(Param, "p")
    return [("there is no parameter, or more than one", NOT(z3.Exists([q], zb(AND(P(q), z3.ForAll([p], z3.Implies(zb(P(p)), p == q)))))))]


for how in ("bisection", "dual"):
    reg(name=f"max_within_feasible[{how}]", module=OU, fn="max_within_feasible", attrs=SATTRS,
        stubs=dict(SLIB, _maximize_via_bisect=SEARCH("bisection"), _maximize_via_dual=SEARCH("dual")), setup=feasible_setup(how), ensures=feasible_ens(how),
        raises={"AssertionError": unsuited})
