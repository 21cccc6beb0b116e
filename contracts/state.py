"""Contracts on the state-keeping methods of InflationSDP and InflationLP.

A moment is an element of the uninterpreted sort Mon, a number a real; a
dictionary is any finite partial function.  What a property says about histories
is an induction over these contracts: every setter leaves exactly the stated
state its contract says, as a function of its arguments and of the stated state of
the *other* kinds, and `_prepare_solver_arguments` derives everything else anew.
"""
import sys
import z3
from pyvc.objvc import *
from pyvc import objvc as O
from pyvc.objverify import contract_stub, Post

Mon, Atom, Name, Any, Status = (Sort(n) for n in ("Mon", "Atom", "Name", "Any", "Status"))
SDP = "inflation/sdp/InflationSDP.py"
LP = "inflation/lp/InflationLP.py"


def fn(name, *sorts):
    return z3.Function(name, *sorts)


name_of = fn("name", Mon, Name)
factor0 = fn("factor0", Mon, Atom)
nfac = fn("n_factors", Mon, I)
san = fn("sanitised", Any, Mon)
rejected = fn("rejected", Any, B)
flags = {n: fn(n, Mon, B) for n in ("is_atomic", "is_knowable", "is_all_commuting", "is_one", "is_zero", "is_do_conditional")}
aflags = {n: fn("atom_" + n, Atom, B) for n in ("is_knowable", "is_all_commuting", "is_one", "is_zero")}
status_of = fn("knowability", Mon, Status)
dagger = fn("dagger", Atom, Atom)

Factors = Sort("Factors")
factors = fn("factors", Mon, Factors)

ATTRS = {("Mon", "name"): name_of, ("Mon", "factors"): factors, ("Mon", "knowability_status"): status_of, ("Mon", "len"): nfac,
         ("Mon", "n_factors"): nfac, ("Atom", "dagger"): dagger, ("Mon", "str"): name_of}
for k, f in flags.items():
    ATTRS[("Mon", k)] = f
for k, f in aflags.items():
    ATTRS[("Atom", k)] = f
_f0 = fn("first", Factors, Atom)


def _index(t, k):
    if k == 0:
        return _f0(t)
    raise Unsupported("factor other than the first")


ATTRS[("Factors", "[]")] = _index


def dct(eng, nm, val=(R,), ksort=Mon, E=False, default=None):
    """an arbitrary dictionary; val: component sorts (one: a number)"""
    dom = eng.fresh(nm + "_dom", B, ksort)
    vs = [eng.fresh(f"{nm}_val{i}", s, ksort) for i, s in enumerate(val)]
    v = vs[0] if len(vs) == 1 else (lambda q: tuple(f(q) for f in vs))
    return DictO(ksort, dom, v, default, eng.fresh(nm + "_E", R) if E else None)


def mset(eng, nm, ksort=Mon):
    return SetO(ksort, eng.fresh(nm, B, ksort))


def seq_of(eng, nm, ksort=Mon):
    """a list of distinct moments, as a family over the moments it contains"""
    f = eng.fresh(nm, B, ksort)
    k = var(ksort, "k")
    return LstO((Gen([k], f(k), k),))


def eqs(eng, nm):
    """a list of dictionaries (one per index)"""
    i = var(I, "i")
    n = eng.fresh(nm + "_n", I)
    dom, val = fn(nm + "_dom", I, Mon, B), fn(nm + "_val", I, Mon, R)
    d = DictO(Mon, lambda q: dom(i, q), lambda q: val(i, q))
    return LstO((Gen([i], z3.And(0 <= i, i < n), d),))


def same(eng, a, b):
    return eng.same_obj(a, b)


def contains(o, q):
    """membership in the family a list holds"""
    g = o.parts[0]
    return g.at([q])[0]


def sdp_self(eng, st, E=False, alias=False):
    a = {}
    al = lambda o: eng.alloc(st, o)
    a["One"], a["Zero"], a["Constant_Term"] = eng.fresh("One", Mon), eng.fresh("Zero", Mon), eng.fresh("Constant_Term", Mon)
    a["known_moments"] = al(dct(eng, "known"))
    a["semiknown_moments"] = al(dct(eng, "semi", (R, Mon)))
    a["_specified_values"] = al(dct(eng, "specified"))
    a["_support_lowerbounds"] = al(dct(eng, "support"))
    a["_stated_lowerbounds"] = al(dct(eng, "statedlo"))
    a["_stated_upperbounds"] = al(dct(eng, "statedup"))
    a["moment_lowerbounds"] = al(dct(eng, "lo"))
    a["moment_upperbounds"] = al(dct(eng, "up"))
    a["objective"] = al(dct(eng, "obj", E=E))
    a["_processed_objective"] = a["objective"] if alias else al(dct(eng, "pobj", E=E))
    a["maximize"] = eng.fresh("maximize", B)
    a["extra_equalities"] = al(eqs(eng, "xeq"))
    a["extra_inequalities"] = al(eqs(eng, "xineq"))
    a["supports_problem"] = eng.fresh("supports", B)
    a["use_lpi_constraints"] = eng.fresh("lpi", B)
    a["verbose"] = eng.fresh("verbose", I)
    a["momentmatrix_has_a_zero"] = eng.fresh("has_zero", B)
    a["momentmatrix_has_a_one"] = eng.fresh("has_one", B)
    a["hermitian_moments"] = al(seq_of(eng, "hermitian"))
    a["moments"] = al(seq_of(eng, "moment"))
    a["constant_term_name"] = eng.fresh("constant_term_name", Name)
    a["n_columns"] = eng.fresh("n_columns", I)
    a["status"] = "whatever"
    for x in ("primal_objective", "objective_value"):
        a[x] = eng.fresh(x, R)
    a["solution_object"] = eng.fresh("solution", Any)
    a["_relaxation_has_been_generated"] = True
    r = al(RecO((SDP, "InflationSDP"), a))
    return r


SOLUTION = {"status", "primal_objective", "objective_value", "solution_object"}


def sdp_inv(pre):
    """class invariant: the unit moment is not the zero moment and is in the objective"""
    return [("one is not zero", pre["One"] != pre["Zero"]),
            ("the objective has its constant term", pre["objective"].dom(pre["One"]))]


CONTRACTS = {}


def reg(**c):
    c.setdefault("attrs", ATTRS)
    c.setdefault("engine", "state")
    c.setdefault("origin", sys._getframe(1).f_globals["__name__"].split(".")[-1])
    CONTRACTS[c["name"]] = c
    return c


def forall(f):
    return FA(Mon, f)


class P_:
    def __init__(self, st, r):
        self.st, self.r = st, r

    def __getitem__(self, k):
        v = self.st.heap[self.r.a].attrs[k]
        return self.st.heap[v.a] if isinstance(v, Ref) else v


def setup_self(mk, inv, args=lambda eng, st, P: [], extra=lambda eng, st, P: [], **mkkw):
    def setup(eng, st):
        r = mk(eng, st, **mkkw)
        P = P_(st, r)
        a = args(eng, st, P)
        inputs = {}
        if isinstance(a, tuple):
            a, inputs = a
        return {"self": r, "args": a, "inputs": inputs, "requires": inv(P) + extra(eng, st, P)}
    return setup


# ------------------------------------------------------------------- bounds
def solution_reset(eng, pr, po, v, ctx):
    return [("the solution is discarded", not po.has("solution_object") and not po.has("objective_value") and not po.has("primal_objective")),
            ("the status is reset", po["status"] == "Not yet solved")]


def upper_spec(S, known, q):
    return AND(S.dom(q), NOT(AND(known.dom(q), isreal(known.val(q)))))


def lower_dom(P, q):
    return OR(contains(P["hermitian_moments"], q), P["_stated_lowerbounds"].dom(q), P["_support_lowerbounds"].dom(q))


def lower_val(P, q):
    st_, su = P["_stated_lowerbounds"], P["_support_lowerbounds"]
    herm = contains(P["hermitian_moments"], q)
    base = IT(st_.dom(q), st_.val(q), z3.RealVal(0))
    have = OR(herm, st_.dom(q))
    return IT(su.dom(q), IT(AND(have, base > su.val(q)), base, su.val(q)), base)


def bounds_ensures(typ, src=None):
    def ens(eng, pr, po, v, ctx):
        S = src(pr, po) if src else po
        known = po["known_moments"]
        if typ == "up":
            d, st_ = po["moment_upperbounds"], S["_stated_upperbounds"]
            return [("an upper bound is in force exactly for stated, not fixed moments", forall(lambda q: IFF(d.dom(q), upper_spec(st_, known, q)))),
                    ("upper bounds keep their values", forall(lambda q: IMP(d.dom(q), EQ(d.val(q), st_.val(q))))),
                    ("no value exceeds its upper bound", forall(lambda q: IMP(AND(known.dom(q), isreal(known.val(q)), st_.dom(q)), st_.val(q) >= known.val(q))))]
        d = po["moment_lowerbounds"]
        fixed = lambda q: AND(known.dom(q), isreal(known.val(q)))
        return [("a lower bound is in force exactly for bounded, not fixed moments", forall(lambda q: IFF(d.dom(q), AND(lower_dom(S, q), NOT(fixed(q)))))),
                ("the lower bound is the strongest one stated", forall(lambda q: IMP(d.dom(q), EQ(d.val(q), lower_val(S, q))))),
                ("no value is below its lower bound", forall(lambda q: IMP(AND(fixed(q), lower_dom(S, q)), lower_val(S, q) <= known.val(q))))]
    return ens


def contradiction(typ):
    def f(eng, pr, po, ctx):
        known = pr["known_moments"]
        if typ == "up":
            st_ = pr["_stated_upperbounds"]
            return [("a value exceeds its upper bound", EX(Mon, lambda q: AND(known.dom(q), isreal(known.val(q)), st_.dom(q), st_.val(q) < known.val(q))))]
        return [("a value is below its lower bound", EX(Mon, lambda q: AND(known.dom(q), isreal(known.val(q)), lower_dom(pr, q), lower_val(pr, q) > known.val(q))))]
    return f


for typ in ("up", "lo"):
    reg(name=f"InflationSDP._update_bounds[{typ}]", module=SDP, fn="InflationSDP._update_bounds",
        setup=setup_self(sdp_self, sdp_inv, lambda eng, st, P, typ=typ: [typ]),
        ensures=bounds_ensures(typ), raises={"AssertionError": contradiction(typ)},
        modifies={"moment_upperbounds" if typ == "up" else "moment_lowerbounds"})


# ---------------------------------------------------------------- objective
def obj_requires(eng, st, P):
    x = fn("x", Mon, R)
    eng.x, eng.xsort = x, Mon
    k, s = P["known_moments"], P["semiknown_moments"]
    return [("the assignment gives the unit one", x(P["One"]) == 1),
            ("it has the known values", forall(lambda q: IMP(AND(k.dom(q), q != P["One"]), x(q) == k.val(q)))),
            ("and satisfies the semiknown relations", forall(lambda q: IMP(s.dom(q), x(q) == s.val(q)[0] * x(s.val(q)[1])))),
            ("no chain of semiknown moments", forall(lambda q: IMP(s.dom(q), NOT(s.dom(s.val(q)[1])))))]


def same_E(eng, d, o):
    if eng.x is None:
        return True
    if o.E is None or d.E is None:
        raise Unsupported("the value of the objective is not tracked")
    return d.E == o.E


def obj_ensures(eng, pr, po, v, ctx, src=None):
    """src: the state whose known and semiknown values were used"""
    d, o, k, s = po["_processed_objective"], pr["objective"], pr["known_moments"], pr["semiknown_moments"]
    one = pr["One"]
    out = [("the objective has the same value for every assignment obeying the known values", same_E(eng, d, o)),
           ("no semiknown moment is left", forall(lambda q: IMP(d.dom(q), OR(q == one, NOT(s.dom(q)), k.dom(q))))),
           ("a known moment is left only if a semiknown one refers to it",
            forall(lambda q: IMP(AND(d.dom(q), k.dom(q), q != one), EX(Mon, lambda m: AND(s.dom(m), o.dom(m), EQ(s.val(m)[1], q)))))),
            ("moments that are neither known nor referred to keep their coefficient",
             forall(lambda q: IMP(AND(q != one, NOT(k.dom(q)), NOT(s.dom(q)), NOT(EX(Mon, lambda m: AND(s.dom(m), EQ(s.val(m)[1], q))))),
                                  AND(IFF(d.dom(q), o.dom(q)), IMP(o.dom(q), EQ(d.val(q), o.val(q)))))))]
    return out


def sdp_E(eng, st, alias=False):
    eng.x, eng.xsort = fn("x", Mon, R), Mon
    return sdp_self(eng, st, E=True, alias=alias)


for alias in (False, True):
    reg(name="InflationSDP._update_objective" + ("[aliased]" if alias else ""), module=SDP, fn="InflationSDP._update_objective",
        setup=setup_self(sdp_E, sdp_inv, extra=obj_requires, alias=alias), ensures=obj_ensures, modifies={"_processed_objective"})


# ------------------------------------------------------------ contracts in use
def obj_call(eng, P):
    out = sdp_inv(P)
    if eng.x is not None:
        x, k, s = eng.x, P["known_moments"], P["semiknown_moments"]
        out += [("the assignment has the known values", forall(lambda q: IMP(AND(k.dom(q), q != P["One"]), x(q) == k.val(q)))),
                ("the assignment satisfies the semiknown relations",
                 FA(Mon, lambda q: True) if isinstance(s.val(var(Mon)), Undef) else
                 forall(lambda q: IMP(s.dom(q), x(q) == s.val(q)[0] * x(s.val(q)[1])))),
                ("there is no chain of semiknown moments",
                 True if isinstance(s.val(var(Mon)), Undef) else forall(lambda q: IMP(s.dom(q), NOT(s.dom(s.val(q)[1])))))]
    return out


def none(eng, P):
    return []


UPDATE_OBJECTIVE = contract_stub(dict(fn="_update_objective", call_requires=obj_call, ensures=obj_ensures,
                                      havoc={"_processed_objective": lambda eng, P: dct(eng, "pobj", E=eng.x is not None)}))


def UPDATE_BOUNDS(eng, st, args, kw):
    typ = args[1]
    if typ not in ("up", "lo"):
        raise Unsupported("bound type")
    k = "moment_upperbounds" if typ == "up" else "moment_lowerbounds"
    return contract_stub(dict(fn="_update_bounds", call_requires=none, ensures=bounds_ensures(typ),
                              raises={"AssertionError": contradiction(typ)}, havoc={k: lambda eng, P: dct(eng, "bounds")}))(eng, st, args, kw)


def SANITISE(eng, st, args, kw):
    m = args[1]
    if z3.is_expr(m) and m.sort() == Mon:
        return [(st, m)]
    return [(s, Exc("Exception") if bad else san(m)) for s, bad in eng.fork(st, rejected(m))]


def SANITISE_DICT(eng, st, args, kw):
    """a dictionary from moments to coefficients, determined by the argument"""
    src = st.heap[args[1].a] if isinstance(args[1], Ref) else args[1]
    dom = eng.HOF("sd_dom", (src,), B, Mon)
    val = eng.HOF("sd_val", (src,), R, Mon)
    st = st.copy()
    r = eng.alloc(st, DictO(Mon, dom, val, 0, eng.HOF("sd_E", (src,), R) if eng.x is not None else None))
    eng.sd = (dom, val)
    if getattr(eng, "no_raise", False):
        return [(st, r)]
    return [(s, Exc("Exception") if bad else r) for s, bad in eng.fork(st, eng.fresh("rejected", B))]


def reset_ens(*fs):
    def ens(eng, pr, po, v, ctx):
        return [x for f in fs for x in f(eng, pr, po, v, ctx)]
    return ens


def empty(name):
    def ens(eng, pr, po, v, ctx):
        d = po[name]
        return [(f"{name} is empty", True if d.ksort is None else forall(lambda q: NOT(d.dom(q))))]
    return ens


SOL = set(SOLUTION)
for had in (True, False):
    def mk(eng, st, had=had):
        r = sdp_self(eng, st)
        if not had:
            o = st.heap[r.a]
            a = dict(o.attrs)
            for x in ("primal_objective", "solution_object"):
                a[x] = ABSENT
            st.heap[r.a] = RecO(o.cls, a)
        return r
    reg(name="InflationSDP._reset_solution" + ("" if had else "[unsolved]"), module=SDP, fn="InflationSDP._reset_solution",
        setup=setup_self(mk, sdp_inv), ensures=solution_reset, modifies=SOL)

reg(name="InflationSDP._reset_lowerbounds", module=SDP, fn="InflationSDP._reset_lowerbounds", stubs={"_update_bounds": UPDATE_BOUNDS},
    setup=setup_self(sdp_self, sdp_inv), ensures=reset_ens(solution_reset, empty("_stated_lowerbounds"), bounds_ensures("lo")),
    raises={"AssertionError": lambda eng, pr, po, ctx: [("a value is below its lower bound", contradiction("lo")(eng, po, po, ctx)[0][1])]},
    modifies=SOL | {"_stated_lowerbounds", "moment_lowerbounds"})
reg(name="InflationSDP._reset_upperbounds", module=SDP, fn="InflationSDP._reset_upperbounds",
    setup=setup_self(sdp_self, sdp_inv), ensures=reset_ens(solution_reset, empty("_stated_upperbounds"), empty("moment_upperbounds")),
    modifies=SOL | {"_stated_upperbounds", "moment_upperbounds"})


def objective_reset(eng, pr, po, v, ctx):
    o, p, one = po["objective"], po["_processed_objective"], pr["One"]
    return [("the objective is the constant zero", forall(lambda q: AND(IFF(o.dom(q), q == one), IMP(o.dom(q), EQ(o.val(q), 0))))),
            ("so is the processed objective", forall(lambda q: AND(IFF(p.dom(q), q == one), IMP(p.dom(q), EQ(p.val(q), 0))))),
            ("the direction is maximisation", EQ(po["maximize"], True))]


reg(name="InflationSDP._reset_objective", module=SDP, fn="InflationSDP._reset_objective",
    setup=setup_self(sdp_self, sdp_inv), ensures=reset_ens(solution_reset, objective_reset),
    modifies=SOL | {"objective", "_processed_objective", "maximize"})


def values_reset(zero):
    def ens(eng, pr, po, v, ctx):
        k, s, sp, su = po["known_moments"], po["semiknown_moments"], po["_specified_values"], po["_support_lowerbounds"]
        one, z = pr["One"], pr["Zero"]
        hz = pr["momentmatrix_has_a_zero"] if zero else False
        nothing = lambda d: True if d.ksort is None else forall(lambda q: NOT(d.dom(q)))
        return [("only the trivial moments are known", forall(lambda q: IFF(k.dom(q), OR(q == one, AND(hz, q == z))))),
                ("the unit is one and zero is zero", forall(lambda q: IMP(k.dom(q), EQ(k.val(q), IT(q == one, z3.RealVal(1), z3.RealVal(0)))))),
                ("nothing is semiknown", nothing(s)), ("no support bound is left", nothing(su)),
                ("no value counts as specified", nothing(sp)),
                ("no extra equality is left", len(po["extra_equalities"].parts) == 0),
                ("no extra inequality is left", len(po["extra_inequalities"].parts) == 0)]
    return ens


VALUES = {"known_moments", "semiknown_moments", "_specified_values", "_support_lowerbounds", "extra_equalities", "extra_inequalities"}
reg(name="InflationSDP._reset_values", module=SDP, fn="InflationSDP._reset_values",
    setup=setup_self(sdp_self, sdp_inv), ensures=reset_ens(solution_reset, values_reset(True)), modifies=SOL | VALUES)


# ---------------------------------------------------------------- set_bounds
def user_dict(eng, st, nm="bounds"):
    return eng.alloc(st, dct(eng, nm, ksort=Any))


def stated_from(po_dict, b, none=False):
    """what was stated is what the argument says, moment by moment"""
    if none:
        return [("nothing is stated", True if po_dict.ksort is None else forall(lambda q: NOT(po_dict.dom(q))))]
    return [("exactly the given moments are bounded", forall(lambda q: IFF(po_dict.dom(q), EX(Any, lambda k: AND(b.dom(k), san(k) == q))))),
            ("each bound is one that was given for the moment", forall(lambda q: IMP(po_dict.dom(q), EX(Any, lambda k: AND(b.dom(k), san(k) == q, EQ(po_dict.val(q), b.val(k))))))),
            ("every bound given for the moment agrees with it", FA(Any, lambda k: IMP(b.dom(k), OR(EQ(po_dict.val(san(k)), b.val(k)), isclose(po_dict.val(san(k)), b.val(k))))))]


def conflicting(b):
    return EX([Any, Any], lambda k, l: AND(b.dom(k), b.dom(l), san(k) == san(l), NOT(isclose(b.val(k), b.val(l)))))


for typ in ("up", "lo"):
    for none_ in (False, True):
        stated, inforce = ("_stated_upperbounds", "moment_upperbounds") if typ == "up" else ("_stated_lowerbounds", "moment_lowerbounds")

        def args(eng, st, P, typ=typ, none_=none_):
            if none_:
                return [None, typ]
            d = user_dict(eng, st)
            return [d, typ], {"bounds": d}

        def ens(eng, pr, po, v, ctx, typ=typ, none_=none_, stated=stated):
            b = None if none_ else pr.obj(ctx["args"][0])
            return solution_reset(eng, pr, po, v, ctx) + stated_from(po[stated], b, none_) + bounds_ensures(typ)(eng, po, po, v, ctx)

        def bad(eng, pr, po, ctx, typ=typ, none_=none_, stated=stated, inforce=inforce):
            c = contradiction(typ)(eng, po, po, ctx)[0][1]
            # resetting lower bounds re-derives those of the support, which may contradict as well
            ok = OR(c, False if none_ else conflicting(pr.obj(ctx["args"][0])))
            return [("the bounds contradict each other or a value", ok)]
        reg(name=f"InflationSDP.set_bounds[{typ}{', None' if none_ else ''}]", module=SDP, fn="InflationSDP.set_bounds",
            stubs={"_update_bounds": UPDATE_BOUNDS, "_sanitise_moment": SANITISE},
            setup=setup_self(sdp_self, sdp_inv, args), ensures=ens,
            raises={"AssertionError": (bad, SOL | {stated, inforce}), "Exception": ((lambda eng, pr, po, ctx: []), ())},
            modifies=SOL | {stated, inforce})


# ------------------------------------------------------------- set_objective
def obj_setup(direction, none_=False):
    def args(eng, st, P):
        if none_:
            return [None, direction]
        d = user_dict(eng, st, "objective")
        return [d, direction], {"objective": d}
    return args


def obj_ens(direction, none_):
    def ens(eng, pr, po, v, ctx):
        out = solution_reset(eng, pr, po, v, ctx)
        mx = direction == "max"
        out.append(("the direction is as asked for", EQ(po["maximize"], mx)))
        if none_:
            return out + [x for x in objective_reset(eng, pr, po, v, ctx) if "direction" not in x[0]]
        dom, val = eng.sd
        o, one = po["objective"], pr["One"]
        sg = 1 if mx else -1
        out += [("the objective has the given moments and the constant", forall(lambda q: IFF(o.dom(q), OR(q == one, dom(q))))),
                ("each coefficient is the given one, negated for a minimisation", forall(lambda q: IMP(o.dom(q), EQ(o.val(q), IT(dom(q), sg * val(q), z3.RealVal(0)))))),
                ("every moment of the objective is a variable or the constant", forall(lambda q: IMP(AND(o.dom(q), q != one), contains(po["moments"], q))))]
        return out + obj_ensures(eng, po, po, v, ctx)
    return ens


for direction in ("max", "min"):
    for none_ in (False, True):
        reg(name=f"InflationSDP.set_objective[{direction}{', None' if none_ else ''}]", module=SDP, fn="InflationSDP.set_objective",
            stubs={"_update_objective": UPDATE_OBJECTIVE, "_sanitise_dict": SANITISE_DICT},
            setup=setup_self(sdp_self if none_ else sdp_E, sdp_inv, obj_setup(direction, none_), extra=(lambda eng, st, P: []) if none_ else obj_requires),
            ensures=obj_ens(direction, none_),
            raises={"AssertionError": (lambda eng, pr, po, ctx: [], SOL | {"objective", "_processed_objective", "maximize"}),
                    "Exception": (lambda eng, pr, po, ctx: [], SOL | {"objective", "_processed_objective", "maximize"})},
            modifies=SOL | {"objective", "_processed_objective", "maximize"})


# ------------------------------------------------------------------- cleanup
def nonzero(v):
    return NOT(isclose(v, z3.RealVal(0)))


def cleanup_ens(support, bounds=True):
    def ens(eng, pr, po, v, ctx):
        k0, k1, s0, s1 = pr["known_moments"], po["known_moments"], pr["semiknown_moments"], po["semiknown_moments"]
        su0, su1 = pr["_support_lowerbounds"], po["_support_lowerbounds"]
        nothing = lambda d: True if d.ksort is None else forall(lambda q: NOT(d.dom(q)))
        if support:
            out = [("exactly the zero values stay known", forall(lambda q: AND(IFF(k1.dom(q), AND(k0.dom(q), NOT(nonzero(k0.val(q))))), IMP(k1.dom(q), EQ(k1.val(q), k0.val(q)))))),
                   ("moments inside the support are at least one", forall(lambda q: IFF(su1.dom(q), AND(OR(su0.dom(q), AND(k0.dom(q), nonzero(k0.val(q)))), NOT(k1.dom(q)))))),
                   ("support bounds are one or as before", forall(lambda q: IMP(su1.dom(q), EQ(su1.val(q), IT(AND(k0.dom(q), nonzero(k0.val(q))), z3.RealVal(1), su0.val(q)))))),
                   ("nothing is semiknown", nothing(s1))]
        else:
            out = [("a moment that is known is not semiknown", forall(lambda q: AND(IFF(s1.dom(q), AND(s0.dom(q), NOT(k0.dom(q)))), IMP(s1.dom(q), eng.same_val(s1.val(q), s0.val(q))))))]
        return out + (bounds_ensures("lo")(eng, po, po, v, ctx) + bounds_ensures("up")(eng, po, po, v, ctx) if bounds else [])
    return ens


DERIVED = {"moment_lowerbounds", "moment_upperbounds", "_processed_objective"}
for support in (False, True):
    def mk(eng, st, support=support):
        r = sdp_E(eng, st)
        a = dict(st.heap[r.a].attrs)
        a["supports_problem"] = support
        st.heap[r.a] = RecO(st.heap[r.a].cls, a)
        return r

    def ens(eng, pr, po, v, ctx, support=support):
        out = cleanup_ens(support)(eng, pr, po, v, ctx)
        d, o = po["_processed_objective"], po["objective"]
        out.append(("the objective has the same value for every assignment obeying the known values", same_E(eng, d, o)))
        return out

    def bad(eng, pr, po, ctx):
        return [("a value contradicts a bound", OR(contradiction("lo")(eng, po, po, ctx)[0][1], contradiction("up")(eng, po, po, ctx)[0][1]))]
    reg(name="InflationSDP._cleanup_after_set_values" + ("[support]" if support else ""), module=SDP, fn="InflationSDP._cleanup_after_set_values",
        stubs={"_update_bounds": UPDATE_BOUNDS, "_update_objective": UPDATE_OBJECTIVE},
        setup=setup_self(mk, sdp_inv, extra=obj_requires), ensures=ens, raises={"AssertionError": bad},
        modifies=DERIVED | {"semiknown_moments"} | ({"known_moments", "_support_lowerbounds"} if support else set()))


# ------------------------------------------------------- values: the contract
Atoms = Sort("Atoms")
mfa = fn("monomial_from_atoms", Atoms, Mon)
KNOWN, SEMI = (strconst(x, Status) for x in ("Known", "Semi"))


def EVALUATE(eng, st, m, args, kw):
    """what a moment evaluates to is determined by the moment, the known atoms and the flag"""
    d = st.heap[args[0].a]
    lpi = args[1]
    val = eng.HOF("ev_value", (d,), R, Mon, B)
    unk = eng.HOF("ev_unknown", (d,), Atoms, Mon, B)
    sta = eng.HOF("ev_status", (d,), Status, Mon, B)
    lpi = zb(lpi)
    return [(st, (val(m, lpi), unk(m, lpi), sta(m, lpi)))]


ATTRS[("Mon", "evaluate()")] = EVALUATE


def MFA(eng, st, args, kw):
    a = args[1]
    if z3.is_expr(a) and a.sort() == Atoms:
        return [(st, mfa(a))]
    raise Unsupported("monomial from atoms")


def values_spec(eng, pr, ctx, sdp=True):
    """reference: what is specified, and what is known before anything is derived"""
    vals = pr.obj(ctx["args"][0])
    k0, sp0 = pr["known_moments"], pr["_specified_values"]
    real_given = lambda k: AND(vals.dom(k), NOT(AND(isreal(vals.val(k)), isnan(vals.val(k)))))
    given = lambda q: EX(Any, lambda k: AND(real_given(k), san(k) == q))
    S = eng.fresh("spec_value", R, Mon)
    eng.axioms.append(FA(Any, lambda k: IMP(real_given(k), S(san(k)) == vals.val(k))))
    eng.axioms.append(forall(lambda q: IMP(AND(NOT(given(q)), sp0.dom(q)), S(q) == sp0.val(q))))
    trivial = lambda q: OR(q == pr["One"], q == pr["Zero"]) if sdp else q == pr["One"]
    spec = DictO(Mon, lambda q: OR(given(q), sp0.dom(q)), S)
    base = DictO(Mon, lambda q: OR(spec.dom(q), AND(trivial(q), k0.dom(q))), lambda q: IT(spec.dom(q), S(q), k0.val(q)))
    return given, spec, trivial, base


def known_spec(eng, po, pr, base, spec, lpi, sdp=True, kinds="moments"):
    """the dictionary of known atoms that the moments are evaluated with (a ghost:
    the one the code passes), what it has to be, and what the evaluations give"""
    used = [sn[0] for _, sn, cs in eng.hofs.get(("hof", "ev_value"), [])]
    AK = [o for o in po.st.heap.values() if any(o is u for u in used)]
    is1 = lambda m: AND(base.dom(m), nfac(m) == 1)
    f0 = lambda m: _f0(factors(m))
    if AK:
        AK = AK[0]
        out = [("moments are evaluated with the known atoms" + (" and their conjugates" if sdp else ""),
                FA(Atom, lambda a: IFF(AK.dom(a), EX(Mon, lambda m: AND(is1(m), OR(a == f0(m), a == dagger(f0(m)) if sdp else False)))))),
               ("each with its value", forall(lambda m: IMP(is1(m), AK.val(f0(m)) == base.val(m))))]
        if sdp:
            out.append(("as its conjugate", forall(lambda m: IMP(is1(m), AK.val(dagger(f0(m))) == base.val(m)))))
    else:
        AK = DictO(Atom, lambda a: EX(Mon, lambda m: AND(is1(m), OR(a == f0(m), a == dagger(f0(m)) if sdp else False))), lambda a: z3.RealVal(0))
        out = []
    AKd = AK.dom
    val, sta, unk = (eng.HOF(n, (AK,), s, Mon, B) for n, s in (("ev_value", R), ("ev_status", Status), ("ev_unknown", Atoms)))
    allk = FA(Atom, lambda a: IMP(AKd(a), aflags["is_knowable"](a)))
    todo = lambda q: AND(contains(pr[kinds], q), NOT(flags["is_atomic"](q)), NOT(spec.dom(q)),
                         IMP(allk, IT(lpi, OR(status_of(q) == strconst("Knowable", Status), status_of(q) == strconst("Semi", Status)), flags["is_knowable"](q))))
    L = zb(lpi)
    return out, todo, lambda q: val(q, L), lambda q: sta(q, L), lambda q: unk(q, L)


def update_ens(eng, pr, po, v, ctx, sdp=True, kinds="moments", support=False):
    lpi, only = ctx["args"][1], ctx["args"][2]
    given, spec, trivial, base = values_spec(eng, pr, ctx, sdp)
    k, s, sp = po["known_moments"], po["semiknown_moments"], po["_specified_values"]
    k0, s0 = pr["known_moments"], pr["semiknown_moments"]
    out = solution_reset(eng, pr, po, v, ctx)
    out += [("the specified values are the earlier ones updated with the given ones",
             forall(lambda q: AND(IFF(sp.dom(q), spec.dom(q)), IMP(sp.dom(q), EQ(sp.val(q), spec.val(q)))))),
            ("the flag for linear constraints is as asked for", EQ(po["use_lpi_constraints"], lpi))]
    su, su0 = po["_support_lowerbounds"], pr["_support_lowerbounds"]
    if not support:
        out += [("only bounds of the unit and of zero are kept from the support" if not only else "the bounds of the support stay",
                 forall(lambda q: AND(IFF(su.dom(q), AND(su0.dom(q), True if only else trivial(q))), IMP(su.dom(q), EQ(su.val(q), su0.val(q))))))]
    if only:
        out += [("the given values are known and nothing else changes",
                 forall(lambda q: AND(IFF(k.dom(q), OR(given(q), k0.dom(q))), IMP(k.dom(q), EQ(k.val(q), IT(given(q), spec.val(q), k0.val(q))))))),
                ("nothing new is semiknown", forall(lambda q: IMP(s.dom(q), AND(s0.dom(q), NOT(k.dom(q))))))]
        return out
    lemma, todo, val, sta, unk = known_spec(eng, po, pr, base, spec, lpi, sdp, kinds)
    out += lemma
    mom = lambda q: contains(pr[kinds], q)
    derived = lambda q: AND(todo(q), sta(q) == KNOWN)
    if support:
        su, su0 = po["_support_lowerbounds"], pr["_support_lowerbounds"]
        kd = lambda q: AND(mom(q), OR(spec.dom(q), AND(trivial(q), k0.dom(q)), derived(q)))
        kv = lambda q: IT(AND(mom(q), spec.dom(q)), spec.val(q), IT(derived(q), val(q), k0.val(q)))
        inside = lambda q: AND(kd(q), nonzero(kv(q)))
        out += [("exactly what is known to be zero stays known", forall(lambda q: IFF(k.dom(q), AND(kd(q), NOT(nonzero(kv(q))))))),
                ("with its value", forall(lambda q: IMP(k.dom(q), EQ(k.val(q), kv(q))))),
                ("what is known to be nonzero is at least one", forall(lambda q: IFF(su.dom(q), AND(NOT(k.dom(q)), OR(inside(q), AND(trivial(q), su0.dom(q))))))),
                ("the bounds of the support are ones", forall(lambda q: IMP(su.dom(q), EQ(su.val(q), IT(inside(q), z3.RealVal(1), su0.val(q)))))),
                ("nothing is semiknown", forall(lambda q: NOT(s.dom(q))))]
        return out
    out += [("specified values are known as they were specified", forall(lambda q: IMP(AND(mom(q), spec.dom(q)), AND(k.dom(q), EQ(k.val(q), spec.val(q)))))),
            ("moments whose factors are known have the value they evaluate to", forall(lambda q: IMP(derived(q), AND(k.dom(q), EQ(k.val(q), val(q)))))),
            ("the unit and the zero stay as they are", forall(lambda q: IMP(AND(mom(q), trivial(q), k0.dom(q), NOT(spec.dom(q)), NOT(derived(q))), AND(k.dom(q), EQ(k.val(q), k0.val(q)))))),
            ("nothing else is known", forall(lambda q: IMP(k.dom(q), AND(mom(q), OR(spec.dom(q), AND(trivial(q), k0.dom(q)), derived(q)))))),
            ("exactly the moments with some known factors are multiples of others", forall(lambda q: IFF(s.dom(q), AND(todo(q), NOT(sta(q) == KNOWN), sta(q) == SEMI, lpi, NOT(k.dom(q)))))),
            ("of the moment of the unknown factors, by the known part", forall(lambda q: IMP(s.dom(q), AND(EQ(s.val(q)[0], val(q)), EQ(s.val(q)[1], mfa(unk(q)))))))]
    return out


def values_args(only):
    def args(eng, st, P):
        d = user_dict(eng, st, "values")
        return [d, eng.fresh("lpi_arg", B), only], {"values": d}
    return args


def values_requires(sdp=True):
    def f(eng, st, P):
        vals = next(o for o in st.heap.values() if isinstance(o, DictO) and o.ksort == Any)
        f0 = lambda m: _f0(factors(m))
        one = lambda m: nfac(m) == 1
        out = [("no moment is given twice", FA([Any, Any], lambda k, l: IMP(AND(vals.dom(k), vals.dom(l), san(k) == san(l)), k == l))),
               ("something is given", EX(Any, lambda k: vals.dom(k))),
               ("a moment of one factor is determined by it", FA([Mon, Mon], lambda m, n: IMP(AND(one(m), one(n), f0(m) == f0(n)), m == n)))]
        if sdp:
            out.append(("or by its conjugate", FA([Mon, Mon], lambda m, n: IMP(AND(one(m), one(n), f0(m) == dagger(f0(n))), m == n))))
            out.append(("conjugation is an involution", FA(Atom, lambda a: dagger(dagger(a)) == a)))
        return out
    return f


def CLEANUP(eng, st, args, kw):
    P = Post(eng, st, args[0])
    out = []
    for s, t in eng.fork(st, P["supports_problem"]):
        hv = {"moment_lowerbounds": lambda eng, P: dct(eng, "bounds"), "moment_upperbounds": lambda eng, P: dct(eng, "bounds"),
              "_processed_objective": lambda eng, P: dct(eng, "pobj"), "semiknown_moments": lambda eng, P: dct(eng, "semi", (R, Mon))}
        if t:
            hv["known_moments"] = lambda eng, P: dct(eng, "known")
            hv["_support_lowerbounds"] = lambda eng, P: dct(eng, "support")
        bad = lambda eng, pr, po, ctx: [("a value contradicts a bound", OR(contradiction("lo")(eng, po, po, ctx)[0][1], contradiction("up")(eng, po, po, ctx)[0][1]))]
        out += contract_stub(dict(fn="_cleanup_after_set_values", call_requires=lambda eng, P: sdp_inv(P), ensures=cleanup_ens(t), raises={"AssertionError": bad}, havoc=hv))(eng, s, args, kw)
    return out


def with_attr(mk, **kw):
    def f(eng, st):
        r = mk(eng, st)
        a = dict(st.heap[r.a].attrs)
        a.update(kw)
        st.heap[r.a] = RecO(st.heap[r.a].cls, a)
        return r
    return f


UPD = SOL | DERIVED | {"known_moments", "semiknown_moments", "_specified_values", "_support_lowerbounds", "use_lpi_constraints"}
for only, support in ((False, False), (True, False), (False, True)):
    reg(name="InflationSDP.update_values" + ("[only specified]" if only else "[support]" if support else ""), module=SDP, fn="InflationSDP.update_values",
        stubs={"_cleanup_after_set_values": CLEANUP, "_sanitise_moment": SANITISE, "_monomial_from_atoms": MFA},
        setup=setup_self(with_attr(sdp_self, supports_problem=support), sdp_inv, values_args(only), extra=values_requires()),
        ensures=(lambda eng, pr, po, v, ctx, support=support: update_ens(eng, pr, po, v, ctx, support=support)),
        raises={"AssertionError": lambda eng, pr, po, ctx: [], "Exception": lambda eng, pr, po, ctx: []}, modifies=UPD, cost=0 if only else 9)


def nothing_args(kind, defaults=False):
    def args(eng, st, P):
        if kind == "none":
            return [None]
        d = user_dict(eng, st, "values")
        return [d], {"values": d}
    return args


def nothing_given(kind):
    def f(eng, st, P):
        if kind == "none":
            return []
        vals = next(o for o in st.heap.values() if isinstance(o, DictO) and o.ksort == Any)
        return [("nothing is given", FA(Any, lambda k: NOT(vals.dom(k))))]
    return f


def defaulted(ens):
    """the same contract for a call that leaves the flags out"""
    return lambda eng, pr, po, v, ctx: ens(eng, pr, po, v, dict(ctx, args=[ctx["args"][0], False, False]))


for kind in ("none", "empty"):
    reg(name=f"InflationSDP.update_values[{kind}]", module=SDP, fn="InflationSDP.update_values", setup=setup_self(sdp_self, sdp_inv, nothing_args(kind), extra=nothing_given(kind)),
        stubs={"_cleanup_after_set_values": CLEANUP}, ensures=lambda eng, pr, po, v, ctx: [("the call returns", True)], modifies=set(), settled_by_execution=True)
reg(name="InflationSDP.update_values[defaults]", module=SDP, fn="InflationSDP.update_values",
    stubs={"_cleanup_after_set_values": CLEANUP, "_sanitise_moment": SANITISE, "_monomial_from_atoms": MFA},
    setup=setup_self(with_attr(sdp_self, supports_problem=False), sdp_inv, nothing_args("some"), extra=values_requires()), ensures=defaulted(update_ens),
    raises={"AssertionError": lambda eng, pr, po, ctx: [], "Exception": lambda eng, pr, po, ctx: []}, modifies=UPD, cost=9)


# -------------------------------------------------- setting values; resetting
class View:
    """a state with some attributes replaced"""
    def __init__(self, base, **kw):
        self.base, self.kw, self.st = base, kw, base.st

    def __getitem__(self, k):
        return self.kw[k] if k in self.kw else self.base[k]

    def obj(self, v):
        return self.base.obj(v)

    def has(self, k):
        return self.base.has(k)


def blank(ksort=Mon, val=(R,)):
    vs = [z3.RealVal(0) if s == R else z3.Const("nothing", s) for s in val]
    return DictO(ksort, lambda q: False, (lambda q: vs[0]) if len(vs) == 1 else (lambda q: tuple(vs)))


def after_reset(pr, sdp=True):
    """what `_reset_values` leaves (its proved postcondition, as a state)"""
    one = pr["One"]
    if sdp:
        hz, z = pr["momentmatrix_has_a_zero"], pr["Zero"]
        known = DictO(Mon, lambda q: OR(q == one, AND(hz, q == z)), lambda q: IT(q == one, z3.RealVal(1), z3.RealVal(0)))
    else:
        known = DictO(Mon, lambda q: q == one, lambda q: z3.RealVal(1))
    return View(pr, known_moments=known, semiknown_moments=blank(Mon, (R, Mon)), _specified_values=blank(), _support_lowerbounds=blank())


RESET_SOLUTION = contract_stub(dict(fn="_reset_solution", call_requires=none, ensures=solution_reset,
                                    havoc={"status": lambda eng, P: "Not yet solved", **{x: (lambda eng, P: ABSENT) for x in ("primal_objective", "objective_value", "solution_object")}}))
SOLH = {"status": lambda eng, P: "Not yet solved", **{x: (lambda eng, P: ABSENT) for x in ("primal_objective", "objective_value", "solution_object")}}
EMPTYLIST = lambda eng, P: LstO(())
RESET_VALUES = contract_stub(dict(fn="_reset_values", call_requires=none, ensures=reset_ens(solution_reset, values_reset(True)),
                                  havoc=dict(SOLH, known_moments=lambda eng, P: dct(eng, "known"), semiknown_moments=lambda eng, P: dct(eng, "semi", (R, Mon)),
                                             _specified_values=lambda eng, P: dct(eng, "specified"), _support_lowerbounds=lambda eng, P: dct(eng, "support"),
                                             extra_equalities=EMPTYLIST, extra_inequalities=EMPTYLIST)))


def KW(args, kw):
    """(values, use_lpi_constraints, only_specified_values) of a call"""
    a = list(args)
    lpi = a[1] if len(a) > 1 else kw.get("use_lpi_constraints", False)
    only = a[2] if len(a) > 2 else kw.get("only_specified_values", False)
    return [a[0], lpi, only]


def UPDATE_VALUES(eng, st, args, kw):
    """the contract of update_values at a call"""
    P = Post(eng, st, args[0])
    a = KW(args[1:], kw)
    if not isinstance(a[2], bool) or not isinstance(P["supports_problem"], bool):
        raise Unsupported("update_values with an unknown flag")
    sup = P["supports_problem"]
    ak = {}

    def ens(eng, pr, po, v, ctx):
        if not a[2]:
            # the known atoms: some dictionary the contract describes
            o = DictO(Atom, eng.fresh("atom_known", B, Atom), eng.fresh("atom_value", R, Atom))
            eng.alloc(po.st, o)
            eng.HOF("ev_value", (o,), R, Mon, B)
        return update_ens(eng, pr, po, v, {"args": a}, support=sup)

    def req(eng, P):
        vals = P.obj(a[0])
        return [r for r in values_requires()(eng, P.st, P)]
    hv = dict(SOLH, known_moments=lambda eng, P: dct(eng, "known"), semiknown_moments=lambda eng, P: dct(eng, "semi", (R, Mon)),
              _specified_values=lambda eng, P: dct(eng, "specified"), _support_lowerbounds=lambda eng, P: dct(eng, "support"),
              use_lpi_constraints=lambda eng, P: a[1], moment_lowerbounds=lambda eng, P: dct(eng, "bounds"), moment_upperbounds=lambda eng, P: dct(eng, "bounds"),
              _processed_objective=lambda eng, P: dct(eng, "pobj"))
    nope = lambda eng, pr, po, ctx: []
    return contract_stub(dict(fn="update_values", call_requires=req, ensures=ens, raises={"AssertionError": nope, "Exception": nope}, havoc=hv))(eng, st, args, kw)


CLOSE = [NOT(isclose(z3.RealVal(1), z3.RealVal(0))), isclose(z3.RealVal(0), z3.RealVal(0))]


def set_args(kind, only):
    def args(eng, st, P):
        if kind == "none":
            return [None]
        d = user_dict(eng, st, "values")
        return [d], {"values": d}
    return args


def set_setup(mk, kind, only, lpi):
    base = setup_self(mk, sdp_inv, set_args(kind, only), extra=(lambda eng, st, P: []) if kind != "some" else values_requires())

    def setup(eng, st):
        c = base(eng, st)
        if kind == "empty":
            d = st.heap[c["args"][0].a]
            c["requires"].append(("nothing is given", FA(Any, lambda k: NOT(d.dom(k)))))
        c["kw"] = {"use_lpi_constraints": eng.fresh("lpi_arg", B), "only_specified_values": only}
        return c
    return setup


def set_ens(kind, only, support):
    def ens(eng, pr, po, v, ctx):
        if kind != "some":
            out = [x for x in values_reset(True)(eng, pr, po, v, ctx)]
            if support:
                k, su, one = po["known_moments"], po["_support_lowerbounds"], pr["One"]
                out = solution_reset(eng, pr, po, v, ctx) + out[2:3] + out[4:] + [
                    ("only zero is known", forall(lambda q: IFF(k.dom(q), AND(pr["momentmatrix_has_a_zero"], q == pr["Zero"])))),
                    ("only the unit is in the support", forall(lambda q: IFF(su.dom(q), q == one)))]
            else:
                out = solution_reset(eng, pr, po, v, ctx) + out
            return out
        c = {"args": KW(ctx["args"], ctx["kw"])}
        return update_ens(eng, after_reset(pr), po, v, c, support=support) + [
            ("no extra equality is left", len(po["extra_equalities"].parts) == 0), ("no extra inequality is left", len(po["extra_inequalities"].parts) == 0)]
    return ens


for kind, only, support in (("none", False, False), ("empty", False, False), ("empty", False, True), ("some", False, False), ("some", True, False), ("some", False, True)):
    tags = ", ".join([x for x in (kind, "only specified" if only else "", "support" if support else "") if x])
    reg(name=f"InflationSDP.set_values[{tags}]", module=SDP, fn="InflationSDP.set_values",
        stubs={"_reset_values": RESET_VALUES, "update_values": UPDATE_VALUES, "_cleanup_after_set_values": CLEANUP},
        axioms=CLOSE, setup=set_setup(with_attr(sdp_self, supports_problem=support), kind, only, None), ensures=set_ens(kind, only, support),
        raises={"AssertionError": lambda eng, pr, po, ctx: [], "Exception": lambda eng, pr, po, ctx: []}, modifies=UPD | VALUES)


# -------------------------------------------------------- extra (in)equalities
def SANITISE_QUIET(eng, st, args, kw):
    src = st.heap[args[1].a] if isinstance(args[1], Ref) else args[1]
    dom, val = eng.HOF("sd_dom", (src,), B, Mon), eng.HOF("sd_val", (src,), R, Mon)
    st = st.copy()
    return [(st, eng.alloc(st, DictO(Mon, dom, val, 0)))]


def extra_args(some):
    def args(eng, st, P):
        if not some:
            return [None]
        i = var(I, "i")
        n = eng.fresh("given_n", I)
        dom, val = fn("given_dom", I, Any, B), fn("given_val", I, Any, R)
        l = eng.alloc(st, LstO((Gen([i], z3.And(0 <= i, i < n), DictO(Any, lambda q: dom(i, q), lambda q: val(i, q))),)))
        return [l], {"equalities": l}
    return args


def extra_ens(attr, some):
    def ens(eng, pr, po, v, ctx):
        if not some:
            return [("nothing is left", len(po[attr].parts) == 0)]
        given, got = pr.obj(ctx["args"][0]).parts, po[attr].parts
        if not got:
            g = given[0]
            k = var(I)
            return [("nothing was given", z3.ForAll([k], NOT(g.at([k])[0])))]
        if len(got) != 1 or not isinstance(got[0], Gen) or [x.sort() for x in got[0].vars] != [I]:
            raise Unsupported("list of constraints")
        k = var(I)
        c0, d0 = given[0].at([k])
        c1, d1 = got[0].at([k])
        d1 = po.obj(d1)
        eng.ctx.append(k)
        try:
            dom, val = eng.HOF("sd_dom", (d0,), B, Mon), eng.HOF("sd_val", (d0,), R, Mon)
        finally:
            eng.ctx.pop()
        q = var(Mon)
        return [("as many constraints as given", z3.ForAll([k], zb(IFF(c1, c0)))),
                ("each is the given one, with its moments recognised", z3.ForAll([k, q], zb(IMP(c0, AND(IFF(d1.dom(q), dom(q)), IMP(dom(q), EQ(d1.val(q), val(q))))))))]
    return ens


EXTRA_MK = {SDP: ("InflationSDP", sdp_self, sdp_inv)}


def reg_extra(module, cls, mk, inv):
    for attr in ("extra_equalities", "extra_inequalities"):
        for some in (True, False):
            reg(name=f"{cls}.set_{attr}[{'some' if some else 'none'}]", module=module, fn=f"{cls}.set_{attr}", stubs={"_sanitise_dict": SANITISE_QUIET},
                setup=setup_self(mk, inv, extra_args(some)), ensures=extra_ens(attr, some), modifies={attr})


reg_extra(SDP, "InflationSDP", sdp_self, sdp_inv)


# --------------------------------------------------------------------- reset
RESET_LO = contract_stub(dict(fn="_reset_lowerbounds", call_requires=none, ensures=reset_ens(solution_reset, empty("_stated_lowerbounds"), bounds_ensures("lo")),
                              raises={"AssertionError": lambda eng, pr, po, ctx: []},
                              havoc=dict(SOLH, _stated_lowerbounds=lambda eng, P: dct(eng, "stated"), moment_lowerbounds=lambda eng, P: dct(eng, "bounds"))))
RESET_UP = contract_stub(dict(fn="_reset_upperbounds", call_requires=none, ensures=reset_ens(solution_reset, empty("_stated_upperbounds"), empty("moment_upperbounds")),
                              havoc=dict(SOLH, _stated_upperbounds=lambda eng, P: dct(eng, "stated"), moment_upperbounds=lambda eng, P: dct(eng, "bounds"))))
RESET_OBJ = contract_stub(dict(fn="_reset_objective", call_requires=none, ensures=reset_ens(solution_reset, objective_reset),
                               havoc=dict(SOLH, objective=lambda eng, P: dct(eng, "obj"), _processed_objective=lambda eng, P: dct(eng, "pobj"), maximize=lambda eng, P: eng.fresh("mx", B))))
RESETS = {"_reset_values": RESET_VALUES, "_reset_lowerbounds": RESET_LO, "_reset_upperbounds": RESET_UP, "_reset_objective": RESET_OBJ}
KINDS = {"values": (values_reset(True),), "objective": (objective_reset,),
         "lowerbounds": (empty("_stated_lowerbounds"), bounds_ensures("lo")), "upperbounds": (empty("_stated_upperbounds"), empty("moment_upperbounds"))}
TOUCH = {"values": VALUES, "objective": {"objective", "_processed_objective", "maximize"}, "lowerbounds": {"_stated_lowerbounds", "moment_lowerbounds"},
         "upperbounds": {"_stated_upperbounds", "moment_upperbounds"}}
for which, kinds in (("values", ["values"]), ("objective", ["objective"]), ("lowerbounds", ["lowerbounds"]), ("upperbounds", ["upperbounds"]),
                     ("bounds", ["lowerbounds", "upperbounds"]), ("all", ["values", "lowerbounds", "upperbounds", "objective"]),
                     (["upperbounds", "values"], ["upperbounds", "values"])):
    def args(eng, st, P, which=which):
        if isinstance(which, str):
            return [which]
        return [eng.alloc(st, LstO([("one", x) for x in which]))]
    reg(name=f"InflationSDP.reset[{which if isinstance(which, str) else '+'.join(which)}]", module=SDP, fn="InflationSDP.reset", stubs=RESETS,
        setup=setup_self(sdp_self, sdp_inv, args), ensures=reset_ens(solution_reset, *[f for k in kinds for f in KINDS[k]]),
        raises={"AssertionError": (lambda eng, pr, po, ctx: [], SOL.union(*[TOUCH[k] for k in kinds]))} if "lowerbounds" in kinds else {},
        modifies=SOL.union(*[TOUCH[k] for k in kinds]))


def rejected_kind(eng, pr, po, v, ctx):
    return [("an unknown kind is rejected", False)]


reg(name="InflationSDP.reset[something else]", module=SDP, fn="InflationSDP.reset", stubs=RESETS, setup=setup_self(sdp_self, sdp_inv, lambda eng, st, P: ["something else"]),
    ensures=rejected_kind, raises={"Exception": (lambda eng, pr, po, ctx: [], set())}, modifies=set(), may_not_return=True, settled_by_execution=True)


# ----------------------------------------------- histories: lemmas over contracts
CONSTANT = ("One", "Zero", "Constant_Term", "moments", "hermitian_moments", "momentmatrix_has_a_zero", "momentmatrix_has_a_one", "constant_term_name", "n_columns", "verbose")


def states(eng, st, mk, n, fixed=CONSTANT):
    """n states of one relaxation: what generating it fixed is the same in all"""
    first, out = None, []
    for i in range(n):
        r = mk(eng, st)
        if first is None:
            first = r
        else:
            a = dict(st.heap[r.a].attrs)
            for k in fixed:
                if k in a:
                    a[k] = st.heap[first.a].attrs[k]
            st.heap[r.a] = RecO(st.heap[r.a].cls, a)
        out.append(r)
    eng.st0 = st.copy()
    return [Post(eng, st, r) for r in out]


def nope(x):
    return [g for _, g in x]


def run_update(eng, pr, po, vals, lpi, only, support, sdp=True, kinds="moments"):
    """what the contract of update_values says of one run"""
    if not only:
        o = DictO(Atom, eng.fresh("atom_known", B, Atom), eng.fresh("atom_value", R, Atom))
        h = {k: v for k, v in po.st.heap.items() if not (isinstance(v, DictO) and v.ksort == Atom)}
        one = St()
        one.heap = dict(h)
        one.heap["atoms"] = o
        eng.HOF("ev_value", (o,), R, Mon, B)
        po = Shadow(po, one)
        eng.atoms = getattr(eng, "atoms", []) + [o]
    pr = View(pr)
    pr.obj = lambda v, d=vals: d
    return nope(x for x in update_ens(eng, pr, po, None, {"args": [None, lpi, only]}, sdp=sdp, kinds=kinds, support=support) if "discarded" not in x[0] and "status" not in x[0] and "flag" not in x[0])


class Shadow:
    def __init__(self, base, st):
        self.base, self.st = base, st

    def __getitem__(self, k):
        return self.base[k]

    def obj(self, v):
        return self.base.obj(v)

    def has(self, k):
        return self.base.has(k)


def same_values(eng, a, b, support):
    names = (("_specified_values", "the specified values"), ("known_moments", "the known values"), ("semiknown_moments", "the semiknown values")) + \
        ((("_support_lowerbounds", "the bounds of the support"),) if support else ())
    return [(what + " are the same", eng.same_obj(a[k], b[k])) for k, what in names]


def udict(eng, nm):
    return dct(eng, nm, ksort=Any)


def proper(vals, sdp=True):
    return [FA([Any, Any], lambda k, l: IMP(AND(vals.dom(k), vals.dom(l), san(k) == san(l)), k == l)), EX(Any, lambda k: vals.dom(k))]


def one_factor(sdp=True):
    f0 = lambda m: _f0(factors(m))
    one = lambda m: nfac(m) == 1
    out = [FA([Mon, Mon], lambda m, n: IMP(AND(one(m), one(n), f0(m) == f0(n)), m == n))]
    if sdp:
        out += [FA([Mon, Mon], lambda m, n: IMP(AND(one(m), one(n), f0(m) == dagger(f0(n))), m == n)), FA(Atom, lambda a: dagger(dagger(a)) == a)]
    return out


def lemma_set(support, mk=sdp_self, sdp=True, kinds="moments", fixed=CONSTANT):
    def lemma(eng, st):
        a, a2, b, b2 = states(eng, st, mk, 4, fixed)
        vals, lpi = udict(eng, "values"), eng.fresh("lpi", B)
        hyp = proper(vals) + one_factor(sdp)
        hyp += run_update(eng, after_reset(a, sdp), a2, vals, lpi, False, support, sdp, kinds)
        hyp += run_update(eng, after_reset(b, sdp), b2, vals, lpi, False, support, sdp, kinds)
        return hyp, same_values(eng, a2, b2, support)
    return lemma


def lemma_update(support, mk=sdp_self, sdp=True, kinds="moments", fixed=CONSTANT):
    """setting some values and updating with others is setting all of them"""
    def lemma(eng, st):
        a, a1, a2, b, b2 = states(eng, st, mk, 5, fixed)
        v1, v2, v12 = udict(eng, "values1"), udict(eng, "values2"), udict(eng, "all_values")
        lpi1, lpi = eng.fresh("lpi1", B), eng.fresh("lpi2", B)
        real_given = lambda d, k: AND(d.dom(k), NOT(AND(isreal(d.val(k)), isnan(d.val(k)))))
        given = lambda d, q: EX(Any, lambda k: AND(real_given(d, k), san(k) == q))
        hyp = proper(v1) + proper(v2) + proper(v12) + one_factor(sdp)
        hyp += [nfac(a["One"]) != 1, flags["is_atomic"](a["One"])]
        if sdp:
            hyp += [flags["is_atomic"](a["Zero"]), IMP(a["momentmatrix_has_a_zero"], contains(a[kinds], a["Zero"])), a["Zero"] != a["One"]]
        hyp += [forall(lambda q: IFF(given(v12, q), OR(given(v1, q), given(v2, q)))),
                FA([Any, Any], lambda k, l: IMP(AND(real_given(v12, k), real_given(v2, l), san(k) == san(l)), v12.val(k) == v2.val(l))),
                FA([Any, Any], lambda k, l: IMP(AND(real_given(v12, k), real_given(v1, l), san(k) == san(l), NOT(given(v2, san(k)))), v12.val(k) == v1.val(l)))]
        hyp += run_update(eng, after_reset(a, sdp), a1, v1, lpi1, False, support, sdp, kinds)
        hyp += run_update(eng, a1, a2, v2, lpi, False, support, sdp, kinds)
        hyp += run_update(eng, after_reset(b, sdp), b2, v12, lpi, False, support, sdp, kinds)
        g = same_values(eng, a2, b2, support)
        g[0] += (("ev_", "atom_", "known_", "semi_", "support_"),)
        return hyp, g[:1] + [("the moments are evaluated with the same known atoms", eng.same_obj(eng.atoms[-2], eng.atoms[-1]))] + g[1:]
    return lemma


for support in (False, True):
    t = " [support]" if support else ""
    reg(name="InflationSDP lemma: values depend on the last setting alone" + t, lemma=lemma_set(support), axioms=CLOSE)
    reg(name="InflationSDP lemma: setting and updating is setting all" + t, lemma=lemma_update(support), axioms=CLOSE)


def shared(eng, st, x, y, names):
    """make state y have x's objects under these names"""
    a = dict(st.heap[y.ref.a].attrs)
    for k in names:
        a[k] = st.heap[x.ref.a].attrs[k]
    st.heap[y.ref.a] = RecO(st.heap[y.ref.a].cls, a)


STATED_ALL = ("known_moments", "semiknown_moments", "_specified_values", "_support_lowerbounds", "_stated_lowerbounds", "_stated_upperbounds", "objective", "maximize",
          "extra_equalities", "extra_inequalities")
DERIVE = ("known_moments", "semiknown_moments", "_support_lowerbounds", "moment_lowerbounds", "moment_upperbounds")


def stated_of(p):
    return [k for k in STATED_ALL if k in p.st.heap[p.ref.a].attrs] if isinstance(p, Post) else stated_of(p.base)


def after_cleanup(pr, po, names):
    """the frame of `_cleanup_after_set_values`: what it leaves alone"""
    return View(po, **{k: pr[k] for k in stated_of(pr) if k not in names})


def lemma_cleanup(support, mk, cleanup, names, fixed=CONSTANT, derived=None):
    def lemma(eng, st):
        a, a2, b, b2, b3 = states(eng, st, mk, 5, fixed)
        for p in (a, b):
            shared(eng, st, a, p, stated_of(a))
        a2v, b2v = after_cleanup(a, a2, names), after_cleanup(b, b2, names)
        b3v = after_cleanup(b2v, b3, names)
        hyp = nope(cleanup(support)(eng, a, a2v, None, {})) + nope(cleanup(support)(eng, b, b2v, None, {})) + nope(cleanup(support)(eng, b2v, b3v, None, {}))
        ks = [k for k in DERIVE if k in a2.st.heap[a2.ref.a].attrs and (derived is None or k in derived)]
        return hyp, [(f"{k} is determined by what is stated", eng.same_obj(a2v[k], b2v[k])) for k in ks] + \
            [(f"deriving {k} again changes nothing", eng.same_obj(b2v[k], b3v[k])) for k in ks]
    return lemma


for support in (False, True):
    reg(name="InflationSDP lemma: what is derived depends on what is stated alone" + (" [support]" if support else ""), axioms=CLOSE,
        lemma=lemma_cleanup(support, sdp_self, cleanup_ens, {"semiknown_moments"} | ({"known_moments", "_support_lowerbounds"} if support else set())))


# ============================================================ linear programs
LPC = "InflationLP"
LPCONST = ("One", "monomials", "constant_term_name", "verbose")


def lp_self(eng, st, E=False):
    a = {}
    al = lambda o: eng.alloc(st, o)
    a["One"] = eng.fresh("One", Mon)
    a["known_moments"] = al(dct(eng, "known"))
    a["semiknown_moments"] = al(dct(eng, "semi", (R, Mon)))
    a["_specified_values"] = al(dct(eng, "specified"))
    a["_support_lowerbounds"] = al(dct(eng, "support"))
    a["_stated_lowerbounds"] = al(dct(eng, "statedlo"))
    a["moment_lowerbounds"] = al(dct(eng, "lo"))
    a["moment_upperbounds"] = al(dct(eng, "up"))
    a["objective"] = al(dct(eng, "obj", default=0))
    a["maximize"] = eng.fresh("maximize", B)
    a["extra_equalities"] = al(eqs(eng, "xeq"))
    a["extra_inequalities"] = al(eqs(eng, "xineq"))
    a["supports_problem"] = eng.fresh("supports", B)
    a["use_lpi_constraints"] = eng.fresh("lpi", B)
    a["verbose"] = eng.fresh("verbose", I)
    a["monomials"] = al(seq_of(eng, "monomial"))
    a["constant_term_name"] = eng.fresh("constant_term_name", Name)
    a["status"] = "whatever"
    for x in ("primal_objective", "objective_value"):
        a[x] = eng.fresh(x, R)
    a["solution_object"] = eng.fresh("solution", Any)
    a["_lp_has_been_generated"] = True
    return al(RecO((LP, LPC), a))


def lp_inv(P):
    return []


def lregs(name, **c):
    reg(name=f"{LPC}.{name}", module=LP, fn=f"{LPC}.{name.split('[')[0]}", **c)


def lp_lower(po, inforce="moment_lowerbounds"):
    d, st_, su = po[inforce], po["_stated_lowerbounds"], po["_support_lowerbounds"]
    return [("a lower bound is in force exactly when stated or from the support", forall(lambda q: IFF(d.dom(q), OR(st_.dom(q), su.dom(q))))),
            ("it is the stronger of the two", forall(lambda q: IMP(d.dom(q), EQ(d.val(q), IT(AND(st_.dom(q), OR(NOT(su.dom(q)), st_.val(q) > su.val(q))), st_.val(q), su.val(q))))))]


def lower_ens(eng, pr, po, v, ctx):
    return lp_lower(po)


lregs("_combine_lowerbounds", setup=setup_self(lp_self, lp_inv), ensures=lower_ens, modifies={"moment_lowerbounds"})
COMBINE = contract_stub(dict(fn="_combine_lowerbounds", call_requires=none, ensures=lower_ens, havoc={"moment_lowerbounds": lambda eng, P: dct(eng, "bounds")}))
for had in (True, False):
    def mk(eng, st, had=had):
        return with_attr(lp_self, **({} if had else {"primal_objective": ABSENT, "solution_object": ABSENT}))(eng, st)
    lregs("_reset_solution" + ("" if had else "[unsolved]"), setup=setup_self(mk, lp_inv), ensures=solution_reset, modifies=SOL)
LPB = {"_combine_lowerbounds": COMBINE, "_reset_solution": RESET_SOLUTION}
lregs("_reset_lowerbounds", stubs=LPB, setup=setup_self(lp_self, lp_inv), ensures=reset_ens(solution_reset, empty("_stated_lowerbounds"), lower_ens),
      modifies=SOL | {"_stated_lowerbounds", "moment_lowerbounds"})
lregs("_reset_upperbounds", stubs=LPB, setup=setup_self(lp_self, lp_inv), ensures=reset_ens(solution_reset, empty("moment_upperbounds")), modifies=SOL | {"moment_upperbounds"})


def lp_objective_reset(eng, pr, po, v, ctx):
    o = po["objective"]
    return [("the objective is empty", True if o.ksort is None else forall(lambda q: NOT(o.dom(q)))), ("the direction is maximisation", EQ(po["maximize"], True))]


lregs("_reset_objective", stubs=LPB, setup=setup_self(lp_self, lp_inv), ensures=reset_ens(solution_reset, lp_objective_reset), modifies=SOL | {"objective", "maximize"})


def lp_values_reset(eng, pr, po, v, ctx):
    k = po["known_moments"]
    return [("only the unit is known", forall(lambda q: AND(IFF(k.dom(q), q == pr["One"]), IMP(k.dom(q), EQ(k.val(q), 1)))))] + \
        [x for n in ("semiknown_moments", "_specified_values", "_support_lowerbounds") for x in empty(n)(eng, pr, po, v, ctx)] + \
        [("no extra equality is left", len(po["extra_equalities"].parts) == 0), ("no extra inequality is left", len(po["extra_inequalities"].parts) == 0)] + lp_lower(po)


LPVALUES = VALUES | {"moment_lowerbounds"}
lregs("_reset_values", stubs=LPB, setup=setup_self(lp_self, lp_inv), ensures=reset_ens(solution_reset, lp_values_reset), modifies=SOL | LPVALUES)

# set_bounds (through _set_upperbounds / _set_lowerbounds)
LRESET_LO = contract_stub(dict(fn="_reset_lowerbounds", call_requires=none, ensures=reset_ens(solution_reset, empty("_stated_lowerbounds"), lower_ens),
                               havoc=dict(SOLH, _stated_lowerbounds=lambda eng, P: dct(eng, "stated"), moment_lowerbounds=lambda eng, P: dct(eng, "bounds"))))
LRESET_UP = contract_stub(dict(fn="_reset_upperbounds", call_requires=none, ensures=reset_ens(solution_reset, empty("moment_upperbounds")),
                               havoc=dict(SOLH, moment_upperbounds=lambda eng, P: dct(eng, "bounds"))))
LRESET_OBJ = contract_stub(dict(fn="_reset_objective", call_requires=none, ensures=reset_ens(solution_reset, lp_objective_reset),
                                havoc=dict(SOLH, objective=lambda eng, P: dct(eng, "obj", default=0), maximize=lambda eng, P: eng.fresh("mx", B))))
LRESET_VALUES = contract_stub(dict(fn="_reset_values", call_requires=none, ensures=reset_ens(solution_reset, lp_values_reset),
                                   havoc=dict(SOLH, known_moments=lambda eng, P: dct(eng, "known"), semiknown_moments=lambda eng, P: dct(eng, "semi", (R, Mon)),
                                              _specified_values=lambda eng, P: dct(eng, "specified"), _support_lowerbounds=lambda eng, P: dct(eng, "support"),
                                              moment_lowerbounds=lambda eng, P: dct(eng, "bounds"), extra_equalities=EMPTYLIST, extra_inequalities=EMPTYLIST)))
for typ in ("up", "lo"):
    for none_ in (False, True):
        stated = "moment_upperbounds" if typ == "up" else "_stated_lowerbounds"

        def args(eng, st, P, typ=typ, none_=none_):
            if none_:
                return [None, typ]
            d = user_dict(eng, st)
            return [d, typ], {"bounds": d}

        def ens(eng, pr, po, v, ctx, typ=typ, none_=none_, stated=stated):
            b = None if none_ else pr.obj(ctx["args"][0])
            return solution_reset(eng, pr, po, v, ctx) + stated_from(po[stated], b, none_) + (lp_lower(po) if typ == "lo" else [])

        def bad(eng, pr, po, ctx, none_=none_):
            return [("two bounds for one moment contradict each other", False if none_ else conflicting(pr.obj(ctx["args"][0])))]
        touched = SOL | ({"moment_upperbounds"} if typ == "up" else {"_stated_lowerbounds", "moment_lowerbounds"})
        lregs(f"set_bounds[{typ}{', None' if none_ else ''}]", stubs={"_combine_lowerbounds": COMBINE, "_reset_lowerbounds": LRESET_LO, "_reset_upperbounds": LRESET_UP, "_sanitise_monomial": SANITISE},
              setup=setup_self(lp_self, lp_inv, args), ensures=ens,
              raises={"AssertionError": (bad, touched), "Exception": (lambda eng, pr, po, ctx: [], touched)}, modifies=touched)


def lp_obj_ens(direction, none_):
    def ens(eng, pr, po, v, ctx):
        out = solution_reset(eng, pr, po, v, ctx)
        mx = direction == "max"
        out.append(("the direction is as asked for", EQ(po["maximize"], mx)))
        o = po["objective"]
        if none_:
            return out + [("the objective is empty", True if o.ksort is None else forall(lambda q: NOT(o.dom(q))))]
        dom, val = eng.sd
        sg = 1 if mx else -1
        return out + [("the objective has the given moments", forall(lambda q: IFF(o.dom(q), dom(q)))),
                      ("each coefficient is the given one, negated for a minimisation", forall(lambda q: IMP(o.dom(q), EQ(o.val(q), sg * val(q))))),
                      ("every moment of the objective is a variable", forall(lambda q: IMP(o.dom(q), contains(po["monomials"], q))))]
    return ens


for direction in ("max", "min"):
    for none_ in (False, True):
        oth = SOL | {"objective", "maximize"}
        lregs(f"set_objective[{direction}{', None' if none_ else ''}]", stubs={"_sanitise_dict": SANITISE_DICT, "_reset_objective": LRESET_OBJ},
              setup=setup_self(with_attr(lp_self, supports_problem=False), lp_inv, obj_setup(direction, none_)), ensures=lp_obj_ens(direction, none_),
              raises={"AssertionError": (lambda eng, pr, po, ctx: [], oth), "Exception": (lambda eng, pr, po, ctx: [], oth)}, modifies=oth)
reg_extra(LP, LPC, lp_self, lp_inv)


def lp_cleanup_ens(support):
    def ens(eng, pr, po, v, ctx):
        return [x for x in cleanup_ens(support, bounds=False)(eng, pr, po, v, ctx)] + (lp_lower(po) if support else [])
    return ens


LPDERIVED = {"semiknown_moments"}
LPSUP = {"known_moments", "_support_lowerbounds", "moment_lowerbounds"}
for support in (False, True):
    lregs("_cleanup_after_set_values" + ("[support]" if support else ""), stubs={"_combine_lowerbounds": COMBINE},
          setup=setup_self(with_attr(lp_self, supports_problem=support), lp_inv), ensures=lp_cleanup_ens(support), modifies=LPDERIVED | (LPSUP if support else set()))


def LP_CLEANUP(eng, st, args, kw):
    P = Post(eng, st, args[0])
    out = []
    for s, t in eng.fork(st, P["supports_problem"]):
        hv = {"semiknown_moments": lambda eng, P: dct(eng, "semi", (R, Mon))}
        if t:
            hv.update(known_moments=lambda eng, P: dct(eng, "known"), _support_lowerbounds=lambda eng, P: dct(eng, "support"), moment_lowerbounds=lambda eng, P: dct(eng, "bounds"))
        out += contract_stub(dict(fn="_cleanup_after_set_values", call_requires=none, ensures=lp_cleanup_ens(t), havoc=hv))(eng, s, args, kw)
    return out


LPUPD = SOL | {"known_moments", "semiknown_moments", "_specified_values", "_support_lowerbounds", "use_lpi_constraints"}
for only, support in ((False, False), (True, False), (False, True)):
    lregs("update_values" + ("[only specified]" if only else "[support]" if support else ""),
          stubs={"_cleanup_after_set_values": LP_CLEANUP, "_sanitise_monomial": SANITISE, "_monomial_from_atoms": MFA, "_reset_solution": RESET_SOLUTION},
          setup=setup_self(with_attr(lp_self, supports_problem=support), lp_inv, values_args(only), extra=values_requires(False)),
          ensures=(lambda eng, pr, po, v, ctx, support=support: update_ens(eng, pr, po, v, ctx, sdp=False, kinds="monomials", support=support) + (lp_lower(po) if support else [])),
          raises={"Exception": lambda eng, pr, po, ctx: []}, modifies=LPUPD | ({"moment_lowerbounds"} if support else set()), cost=0 if only else 8)

for kind in ("none", "empty"):
    lregs(f"update_values[{kind}]", setup=setup_self(lp_self, lp_inv, nothing_args(kind), extra=nothing_given(kind)),
          stubs={"_cleanup_after_set_values": LP_CLEANUP}, ensures=lambda eng, pr, po, v, ctx: [("the call returns", True)], modifies=set(), settled_by_execution=True)
lregs("update_values[defaults]", stubs={"_cleanup_after_set_values": LP_CLEANUP, "_sanitise_monomial": SANITISE, "_monomial_from_atoms": MFA, "_reset_solution": RESET_SOLUTION},
      setup=setup_self(with_attr(lp_self, supports_problem=False), lp_inv, nothing_args("some"), extra=values_requires(False)),
      ensures=defaulted(lambda eng, pr, po, v, ctx: update_ens(eng, pr, po, v, ctx, sdp=False, kinds="monomials")), raises={"Exception": lambda eng, pr, po, ctx: []}, modifies=LPUPD, cost=8)


def LP_UPDATE(eng, st, args, kw):
    P = Post(eng, st, args[0])
    a = KW(args[1:], kw)
    if not isinstance(a[2], bool) or not isinstance(P["supports_problem"], bool):
        raise Unsupported("update_values with an unknown flag")
    sup = P["supports_problem"]

    def ens(eng, pr, po, v, ctx):
        if not a[2]:
            o = DictO(Atom, eng.fresh("atom_known", B, Atom), eng.fresh("atom_value", R, Atom))
            eng.alloc(po.st, o)
            eng.HOF("ev_value", (o,), R, Mon, B)
        return update_ens(eng, pr, po, v, {"args": a}, sdp=False, kinds="monomials", support=sup) + (lp_lower(po) if sup else [])
    hv = dict(SOLH, known_moments=lambda eng, P: dct(eng, "known"), semiknown_moments=lambda eng, P: dct(eng, "semi", (R, Mon)),
              _specified_values=lambda eng, P: dct(eng, "specified"), _support_lowerbounds=lambda eng, P: dct(eng, "support"), use_lpi_constraints=lambda eng, P: a[1])
    if sup:
        hv["moment_lowerbounds"] = lambda eng, P: dct(eng, "bounds")
    return contract_stub(dict(fn="update_values", call_requires=lambda eng, P: values_requires(False)(eng, P.st, P), ensures=ens, raises={"Exception": lambda eng, pr, po, ctx: []}, havoc=hv))(eng, st, args, kw)


def lset_ens(kind, only, support):
    def ens(eng, pr, po, v, ctx):
        if kind != "some":
            out = lp_values_reset(eng, pr, po, v, ctx)
            if support:
                k, su, one = po["known_moments"], po["_support_lowerbounds"], pr["One"]
                out = empty("known_moments")(eng, pr, po, v, ctx) + empty("semiknown_moments")(eng, pr, po, v, ctx) + empty("_specified_values")(eng, pr, po, v, ctx) + [
                    ("only the unit is in the support", forall(lambda q: IFF(su.dom(q), q == one)))] + lp_lower(po)
            return solution_reset(eng, pr, po, v, ctx) + out
        c = {"args": KW(ctx["args"], ctx["kw"])}
        return update_ens(eng, after_reset(pr, False), po, v, c, sdp=False, kinds="monomials", support=support) + lp_lower(po) + [
            ("no extra equality is left", len(po["extra_equalities"].parts) == 0), ("no extra inequality is left", len(po["extra_inequalities"].parts) == 0)]
    return ens


def lset_setup(mk, kind, only):
    base = setup_self(mk, lp_inv, set_args(kind, only), extra=(lambda eng, st, P: []) if kind != "some" else values_requires(False))

    def setup(eng, st):
        c = base(eng, st)
        if kind == "empty":
            d = st.heap[c["args"][0].a]
            c["requires"].append(("nothing is given", FA(Any, lambda k: NOT(d.dom(k)))))
        c["kw"] = {"use_lpi_constraints": eng.fresh("lpi_arg", B), "only_specified_values": only}
        return c
    return setup


for kind, only, support in (("none", False, False), ("empty", False, False), ("empty", False, True), ("some", False, False), ("some", True, False), ("some", False, True)):
    tags = ", ".join([x for x in (kind, "only specified" if only else "", "support" if support else "") if x])
    lregs(f"set_values[{tags}]", stubs={"_reset_values": LRESET_VALUES, "update_values": LP_UPDATE, "_cleanup_after_set_values": LP_CLEANUP}, axioms=CLOSE,
          setup=lset_setup(with_attr(lp_self, supports_problem=support), kind, only), ensures=lset_ens(kind, only, support),
          raises={"Exception": lambda eng, pr, po, ctx: []}, modifies=LPUPD | LPVALUES)

LRESETS = {"_reset_values": LRESET_VALUES, "_reset_lowerbounds": LRESET_LO, "_reset_upperbounds": LRESET_UP, "_reset_objective": LRESET_OBJ, "_cleanup_after_set_values": LP_CLEANUP}
LKINDS = {"values": (lp_values_reset,), "objective": (lp_objective_reset,), "lowerbounds": (empty("_stated_lowerbounds"), lower_ens), "upperbounds": (empty("moment_upperbounds"),)}
LTOUCH = {"values": LPVALUES, "objective": {"objective", "maximize"}, "lowerbounds": {"_stated_lowerbounds", "moment_lowerbounds"}, "upperbounds": {"moment_upperbounds"}}
for which, kinds in (("values", ["values"]), ("objective", ["objective"]), ("lowerbounds", ["lowerbounds"]), ("upperbounds", ["upperbounds"]),
                     ("bounds", ["lowerbounds", "upperbounds"]), ("all", ["values", "lowerbounds", "upperbounds", "objective"]),
                     (["upperbounds", "values"], ["upperbounds", "values"])):
    def args(eng, st, P, which=which):
        if isinstance(which, str):
            return [which]
        return [eng.alloc(st, LstO([("one", x) for x in which]))]
    lregs(f"reset[{which if isinstance(which, str) else '+'.join(which)}]", stubs=LRESETS, axioms=CLOSE,
          setup=setup_self(with_attr(lp_self, supports_problem=False), lp_inv, args), ensures=reset_ens(solution_reset, *[f for k in kinds for f in LKINDS[k]]),
          modifies=SOL.union(*[LTOUCH[k] for k in kinds]))

lregs("reset[something else]", stubs=LRESETS, setup=setup_self(lp_self, lp_inv, lambda eng, st, P: ["something else"]), ensures=rejected_kind,
      raises={"Exception": (lambda eng, pr, po, ctx: [], set())}, modifies=set(), may_not_return=True, settled_by_execution=True)
lregs("reset[values, support]", stubs=LRESETS, axioms=CLOSE, setup=setup_self(with_attr(lp_self, supports_problem=True), lp_inv, lambda eng, st, P: ["values"]),
      ensures=lset_ens("empty", False, True), modifies=SOL | LPUPD | LPVALUES)

for support in (False, True):
    t = " [support]" if support else ""
    reg(name="InflationLP lemma: values depend on the last setting alone" + t, lemma=lemma_set(support, lp_self, False, "monomials", LPCONST), axioms=CLOSE)
    reg(name="InflationLP lemma: setting and updating is setting all" + t, lemma=lemma_update(support, lp_self, False, "monomials", LPCONST), axioms=CLOSE)
    reg(name="InflationLP lemma: what is derived depends on what is stated alone" + t, axioms=CLOSE,
        lemma=lemma_cleanup(support, lp_self, lp_cleanup_ens, {"semiknown_moments"} | (LPSUP if support else set()), LPCONST, {"semiknown_moments"} | (LPSUP if support else set())))
