"""Contracts on what the program classes hand to the solver."""
from .state import *
from .state import reg, ATTRS, dct, eqs, sdp_self, sdp_inv, setup_self, cleanup_ens, CLEANUP, contains, with_attr, DERIVED, contradiction

Matrix = Sort("Matrix")
empty_matrix = fn("empty_matrix", I, I, Matrix)
AATTRS = dict(ATTRS)


# ------------------------------------------------------------- lists as bags
def coefficient(d, n):
    return IT(d.dom(n), real(d.val(n)), z3.RealVal(0))


def bag(eng, st, what, got, want, same):
    """a list holds exactly the elements of the families `want`, each once and
    no other: [(vars, cond, element)]; same(a, b) compares elements"""
    pieces = []
    for p in got.parts:
        if isinstance(p, tuple):
            pieces.append(([], True, p[1]))
        else:
            ks = [var(v.sort(), "e") for v in p.vars]
            c, e = p.at(ks)
            pieces.append((ks, zb(c), e))
    out, left, mine = [], list(pieces), [[] for _ in want]
    for hyps, ms in (([], 700), (st.pcs(), 3000)):
        for p in list(left):
            for i in sorted(range(len(want)), key=lambda i: len(mine[i])):
                nm, ks, c, e = want[i]
                if [v.sort() for v in p[0]] != [k.sort() for k in ks]:
                    continue
                ps = list(zip(p[0], ks))
                pc, pe = sub(p[1], ps), sub(p[2], ps)
                if eng.proves(hyps, z3.ForAll(ks, z3.Implies(zb(pc), zb(AND(c, same(pe, e))))), ms):
                    mine[i].append((pc, pe))
                    left = [x for x in left if x is not p]
                    break
    for m, (nm, ks, c, e) in zip(mine, want):
        both = [AND(a, b) for i, (a, _) in enumerate(m) for b, _ in m[i + 1:]]
        out.append((f"{what}: {nm}", z3.ForAll(ks, zb(IFF(OR(*[pc for pc, _ in m]), c)))))
        out.append((f"{what}: {nm}, once", z3.ForAll(ks, zb(NOT(OR(*both))))))
    for p in left:
        out.append((f"{what}: nothing else", z3.ForAll(p[0], zb(NOT(p[1]))) if p[0] else zb(NOT(p[1]))))
    return out


def by_name(eng, what, got, src, conv=lambda v: v, extra=(), sort=Name):
    """a dictionary under names is one under moments, plus fixed entries [(name, value)]"""
    if not isinstance(got, DictO) or got.ksort is None:
        return [(f"{what}: a dictionary by name", False)]
    fixed = lambda n: OR(*[n == a for a, _ in extra])
    out = [(f"{what}: each entry is there with its value", forall(lambda q: IMP(AND(src.dom(q), NOT(fixed(name_of(q)))), AND(got.dom(name_of(q)), eng.same_val(got.val(name_of(q)), conv(src.val(q))))))),
           (f"{what}: nothing else", FA(Name, lambda n: IMP(got.dom(n), OR(fixed(n), EX(Mon, lambda q: AND(src.dom(q), name_of(q) == n))))))]
    for a, b in extra:
        out.append((f"{what}: the constant term", AND(got.dom(a), eng.same_val(got.val(a), b))))
    return out


def renamed(eng, d):
    """what d is under names: a predicate on (dictionary by name)"""
    def f(e):
        return AND(FA(Name, lambda n: IMP(e.dom(n), EX(Mon, lambda q: AND(d.dom(q), name_of(q) == n)))),
                   forall(lambda q: IMP(d.dom(q), AND(e.dom(name_of(q)), EQ(real(e.val(name_of(q))), real(d.val(q)))))))
    return f


def fam(o):
    """the families a list of dictionaries consists of"""
    out = []
    for p in o.parts:
        ks = [var(v.sort(), "w") for v in p.vars]
        c, e = p.at(ks)
        out.append((ks, zb(c), e))
    return out


def EMPTY_MATRIX(eng, st, args, kw):
    s = args[0] if args else None
    if len(args) == 1 and not kw and isinstance(s, tuple) and len(s) == 2 and all(isnum(x) for x in s):
        return [(st, empty_matrix(*[z3.IntVal(x) if isinstance(x, int) else x for x in s]))]
    raise Unsupported("coo_array")


# ----------------------------------------------------------------------- SDP
def args_self(support):
    def mk(eng, st):
        r = with_attr(sdp_self, supports_problem=support)(eng, st)
        a = dict(st.heap[r.a].attrs)
        a["maskmatrices"] = eng.alloc(st, dct(eng, "mask", (Matrix,)))
        a["minimal_equalities"] = eng.alloc(st, eqs(eng, "meq"))
        a["minimal_inequalities"] = eng.alloc(st, eqs(eng, "mineq"))
        a["_relaxation_has_been_generated"] = eng.fresh("generated", B)
        st.heap[r.a] = RecO(st.heap[r.a].cls, a)
        return r
    return mk


def names_distinct(eng, st, P):
    ct = P["constant_term_name"]
    return [("distinct moments have distinct names", FA([Mon, Mon], lambda p, q: IMP(name_of(p) == name_of(q), p == q))),
            ("the constant term is not the name of a moment", forall(lambda q: name_of(q) != ct))]


def masks_inv(P):
    """the masks are those of the current moment matrix, or not made yet"""
    m = P["maskmatrices"]
    none = forall(lambda q: NOT(m.dom(q)))
    full = forall(lambda q: AND(IFF(m.dom(q), contains(P["moments"], q)), IMP(m.dom(q), EQ(m.val(q), mask_of(idx_of(q))))))
    return [("the masks are those of the moment matrix, or not made yet", OR(none, full))]


MASKS = contract_stub(dict(fn="_construct_mask_matrices", call_requires=lambda eng, P: [], ensures=lambda eng, pr, po, v, ctx: mask_ens(eng, pr, po, v, ctx),
                           havoc={"maskmatrices": lambda eng, P: dct(eng, "mask", (Matrix,))}))
mask_of = fn("mask_of", I, Matrix)
idx_of = fn("idx", Mon, I)
AATTRS[("Mon", "idx")] = idx_of


def mask_ens(eng, pr, po, v, ctx):
    m, m0 = po["maskmatrices"], pr["maskmatrices"]
    go = AND(pr["_relaxation_has_been_generated"], pr["n_columns"] > 0)
    return [("every moment has a mask", forall(lambda q: IFF(m.dom(q), IT(go, contains(pr["moments"], q), m0.dom(q))))),
            ("which marks its entries in the moment matrix", forall(lambda q: IMP(m.dom(q), EQ(m.val(q), IT(go, mask_of(idx_of(q)), m0.val(q))))))]


def sdp_args_ens(support):
    def ens(eng, pr, po, v, ctx):
        r = po.obj(v) if isinstance(v, Ref) else None
        if not isinstance(r, CDict):
            return [("a dictionary of arguments is returned", False)]
        ct = pr["constant_term_name"]
        need = {"mask_matrices", "objective", "known_vars", "semiknown_vars", "equalities", "inequalities"}
        if set(r.items) != need:
            return [("exactly the arguments of the solver are given", False)]
        g = {k: po.obj(x) for k, x in r.items.items()}
        mm = po["maskmatrices"]
        n = pr["n_columns"]
        out = [("the relaxation has been generated", pr["_relaxation_has_been_generated"]),
               ("nothing outside of the relaxation is known", forall(lambda q: IMP(pr["known_moments"].dom(q), contains(pr["moments"], q)))),
               ("every moment has its mask", IMP(n > 0, forall(lambda q: AND(IFF(mm.dom(q), contains(pr["moments"], q)), IMP(mm.dom(q), EQ(mm.val(q), mask_of(idx_of(q))))))))]
        out += by_name(eng, "mask matrices", g["mask_matrices"], mm, extra=[(ct, empty_matrix(n, n))])
        out += by_name(eng, "objective", g["objective"], po["_processed_objective"])
        out += by_name(eng, "known values", g["known_vars"], po["known_moments"], extra=[(ct, z3.RealVal(1))])
        out += by_name(eng, "semiknown relations", g["semiknown_vars"], po["semiknown_moments"], conv=lambda p: (p[0], name_of(p[1])))
        want = [(k, ks, c, renamed(eng, e)) for nm, k in (("minimal_equalities", "the derived ones"), ("extra_equalities", "the stated ones")) for ks, c, e in fam(pr[nm])]
        for k in ("equalities", "inequalities"):
            if not isinstance(g[k], LstO):
                return out + [(f"{k}: a list", False)]
        pred = lambda e, f: f(e) if isinstance(e, DictO) else False
        out += bag(eng, po.st, "equalities", g["equalities"], want, pred)
        want = [(k, ks, c, renamed(eng, e)) for nm, k in (("minimal_inequalities", "the derived ones"), ("extra_inequalities", "the stated ones")) for ks, c, e in fam(pr[nm])]
        for attr, sign, k in (("moment_lowerbounds", 1, "a lower bound"), ("moment_upperbounds", -1, "an upper bound")):
            q = var(Mon, "w")
            d = po[attr]
            want.append((k, [q], zb(d.dom(q)), bound_row(d, q, sign, ct)))
        out += bag(eng, po.st, "inequalities", g["inequalities"], want, pred)
        return out + cleanup_ens(support)(eng, pr, po, None, ctx)
    return ens


def bound_row(d, q, sign, ct):
    """sign * (moment - bound) >= 0; a bound that is numerically zero may be left out"""
    def f(e):
        b = real(d.val(q))
        c = coefficient(e, ct)
        k = z3.RealVal(sign)
        return AND(FA(Name, lambda n: IMP(n != ct, coefficient(e, n) == IT(n == name_of(q), k, z3.RealVal(0)))),
                   OR(c == -k * b, AND(isclose(b, z3.RealVal(0)), c == 0)))
    return f


def not_generated(eng, pr, po, ctx):
    return [("the relaxation has not been generated", NOT(pr["_relaxation_has_been_generated"]))]


for support in (False, True):
    reg(name="InflationSDP._prepare_solver_arguments" + (" [support]" if support else ""), module=SDP, fn="InflationSDP._prepare_solver_arguments", attrs=AATTRS,
        stubs={"_cleanup_after_set_values": CLEANUP, "_construct_mask_matrices": MASKS, "coo_array": EMPTY_MATRIX},
        setup=setup_self(args_self(support), lambda P: sdp_inv(P) + masks_inv(P), extra=names_distinct), ensures=sdp_args_ens(support),
        raises={"AssertionError": lambda eng, pr, po, ctx: [], "Exception": not_generated},
        modifies=DERIVED | {"maskmatrices", "semiknown_moments"} | ({"known_moments", "_support_lowerbounds"} if support else set()))


# ------------------------------------------------------------- mask matrices
def MASK(eng, st, args, kw):
    a = args[0] if args else None
    if len(args) == 1 and not kw and isinstance(a, tuple) and a[0] == "equals":
        return [(st, mask_of(a[1]))]
    raise Unsupported("coo_array")


Grid = Sort("Grid")


reg(name="InflationSDP._construct_mask_matrices", module=SDP, fn="InflationSDP._construct_mask_matrices", attrs=AATTRS,
    stubs={"coo_array": MASK, "compare": lambda eng, st, op, a, b: ("equals", b) if z3.is_expr(a) and a.sort() == Grid and op == "Eq" else None},
    setup=setup_self(lambda eng, st: with_attr(args_self(False), momentmatrix=eng.fresh("momentmatrix", Grid))(eng, st), sdp_inv), ensures=mask_ens, modifies={"maskmatrices"})
