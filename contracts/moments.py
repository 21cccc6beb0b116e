"""Contracts on moments themselves: what a product of atoms evaluates to.

A moment is a finite multiset of atoms (its Counter); `elements` of a Counter is
the same multiset written out, of which only its length is looked at.
"""
from .state import *
from .state import reg, ATTRS, dct, KNOWN, SEMI

MOM = "inflation/lp/monomial_classes.py"
Listed = Sort("Listed")
size = fn("size", Listed, I)
power = fn("pow", R, I, R)


def counter(eng, st, nm):
    d = DictO(Atom, eng.fresh(nm + "_dom", B, Atom), eng.fresh(nm + "_n", I, Atom), COUNTER)
    return d


def written_out(eng, d):
    """the multiset a Counter stands for; its length obeys the laws of finite
    multisets: empty iff nothing is counted, strictly monotone"""
    if d.ksort is None:
        d = DictO(Atom, lambda q: False, lambda q: z3.IntVal(0), COUNTER)
    e = eng.HOF("elements", (d,), Listed)
    n = lambda o, q: IT(AND(o.dom(q), o.val(q) > 0), o.val(q), z3.IntVal(0))
    seen = eng.__dict__.setdefault("multisets", [])
    ctx = list(eng.ctx)
    al = (lambda g: z3.ForAll(ctx, zb(g))) if ctx else zb
    eng.axioms.append(al(AND(size(e) >= 0, IFF(size(e) == 0, FA(Atom, lambda q: n(d, q) == 0)))))
    for o, f in seen:
        for (a, x), (b, y) in (((o, f), (d, e)), ((d, e), (o, f))):
            le = FA(Atom, lambda q: n(a, q) <= n(b, q))
            eng.axioms.append(al(IMP(le, AND(size(x) <= size(y), IMP(size(x) == size(y), FA(Atom, lambda q: n(a, q) == n(b, q)))))))
    seen.append((d, e))
    return e


def ELEMENTS(eng, st, args, kw):
    return [(st, written_out(eng, st.heap[args[0].a]))]


def LISTED(eng, st, args, kw):
    """list and tuple keep what is written out"""
    if args and z3.is_expr(args[0]) and args[0].sort() == Listed:
        return [(st, args[0])]
    raise Unsupported("list of something else")


MATTRS = dict(ATTRS)
MATTRS[("Listed", "len")] = size


def moment_self(eng, st):
    a = {"as_counter": eng.alloc(st, counter(eng, st, "count")), "n_factors": eng.fresh("n_factors", I)}
    return eng.alloc(st, RecO((MOM, "CompoundMoment"), a))


def eval_setup(eng, st):
    r = moment_self(eng, st)
    P = P_(st, r)
    c = P["as_counter"]
    k = dct(eng, "values", (R,), Atom)
    d = eng.alloc(st, k)
    whole = written_out(eng, c)
    return {"self": r, "args": [d, eng.fresh("lpi", B)], "inputs": {"known_monomials": d},
            "requires": [("the Counter counts the factors", AND(P["n_factors"] == size(whole), FA(Atom, lambda q: IMP(c.dom(q), c.val(q) > 0))))]}


def eval_ens(eng, pr, po, v, ctx):
    c, k, lpi = pr["as_counter"], pr.obj(ctx["args"][0]), zb(ctx["args"][1])
    if not isinstance(v, tuple) or len(v) != 3:
        return [("a value, the unknown factors and a status are returned", False)]
    val, unk, sta = v
    q = var(Atom, "q")
    known = lambda q: AND(c.dom(q), k.dom(q))
    miss = lambda q: AND(c.dom(q), NOT(k.dom(q)))
    rest = written_out(eng, DictO(Atom, miss, c.val, COUNTER))
    prod = eng.PROD([q], known(q), power(k.val(q), c.val(q)))
    some, all_ = EX(Atom, known), NOT(EX(Atom, miss))
    zero = AND(isreal(prod), isclose(prod, z3.RealVal(0)))
    isk = OR(all_, AND(some, lpi, zero))
    isu = AND(NOT(isk), OR(NOT(some), NOT(lpi)))
    return [("the value is the product of the known factors to their powers", EQ(real(val), prod)),
            ("what is left are the other factors with their powers", EQ(unk, rest) if z3.is_expr(unk) and unk.sort() == Listed else False),
            ("known: every factor is, or the known part is zero", IFF(sta == "Known", isk)),
            ("unknown: no factor is known or constraints are not asked for", IFF(sta == "Unknown", isu)),
            ("else a multiple of another moment", IFF(sta == "Semi", AND(NOT(isk), NOT(isu))))]


reg(name="CompoundMoment.evaluate", module=MOM, fn="CompoundMoment.evaluate", attrs=MATTRS, stubs={"Counter.elements": ELEMENTS, "list": LISTED, "tuple": LISTED},
    setup=eval_setup, ensures=eval_ens, modifies=set())


# ------------------------------------------------- probability of a knowable moment
marginal = fn("marginal", Any, Atom, R)
MATTRS[("Atom", "compute_marginal()")] = lambda eng, st, a, args, kw: [(st, marginal(args[0], a))]


def marg_self(eng, st):
    r = moment_self(eng, st)
    a = dict(st.heap[r.a].attrs, is_knowable=eng.fresh("is_knowable", B))
    st.heap[r.a] = RecO(st.heap[r.a].cls, a)
    return r


def marg_ens(eng, pr, po, v, ctx):
    c, p = pr["as_counter"], ctx["args"][0]
    q = var(Atom, "q")
    return [("the moment is directly readable", pr["is_knowable"]),
            ("its probability is the product of those of its factors, to their powers", EQ(real(v), eng.PROD([q], c.dom(q), power(marginal(p, q), c.val(q)))))]


reg(name="CompoundMoment.compute_marginal", module=MOM, fn="CompoundMoment.compute_marginal", attrs=MATTRS,
    setup=lambda eng, st: {"self": marg_self(eng, st), "args": [eng.fresh("prob_array", Any)]}, ensures=marg_ens,
    raises={"AssertionError": lambda eng, pr, po, ctx: [("the moment is not directly readable", NOT(pr["is_knowable"]))]}, modifies=set())


# ------------------------------------------------------------ symbolic values
Expr, Param = Sort("Expr"), Sort("Param")
is_symbolic = fn("is_symbolic", Expr, B)
evalf = fn("evalf", Expr, Param, R)
plain = fn("float", Expr, R)
NATTRS = dict(ATTRS)


def EVALF(eng, st, e, args, kw):
    """numbers have no evalf; expressions are evaluated at the values given"""
    at = kw.get("subs")
    if args or set(kw) - {"subs"}:
        raise Unsupported("evalf with other arguments")
    out = []
    for s, t in eng.fork(st, is_symbolic(e)):
        if t and at is None:
            raise Unsupported("evalf at nothing")
        out.append((s, evalf(e, at)) if t else (s, Exc("AttributeError")))
    return out


NATTRS[("Expr", "evalf()")] = EVALF
NATTRS[("Expr", "isinstance")] = lambda e, nm: NOT(is_symbolic(e)) if nm in ("Real", "Number") else is_symbolic(e)


def _has(e, nm):
    if nm != "evalf":
        raise Unsupported("hasattr")
    return is_symbolic(e)


NATTRS[("Expr", "hasattr")] = _has


def FLOAT(eng, st, args, kw):
    a = args[0]
    if z3.is_expr(a) and a.sort() == Expr:
        return [(s, Exc("TypeError") if t else plain(a)) for s, t in eng.fork(st, is_symbolic(a))]
    return [(st, real(a))]


def numerical_setup(eng, st):
    d = eng.alloc(st, dct(eng, "expr", (Expr,)))
    return {"args": [d, eng.fresh("at", Param)], "inputs": {"symbolic_expressions": d}}


def numerical_ens(eng, pr, po, v, ctx):
    d, at = pr.obj(ctx["args"][0]), ctx["args"][1]
    r = po.obj(v)
    if not isinstance(r, DictO) or r.ksort is None:
        return [("a dictionary is returned", isinstance(r, DictO)), ("with the given keys", forall(lambda q: NOT(d.dom(q))))]
    return [("the keys are those given", forall(lambda q: IFF(r.dom(q), d.dom(q)))),
            ("expressions are evaluated at the values of the parameters, numbers kept",
             forall(lambda q: IMP(d.dom(q), EQ(real(r.val(q)), IT(is_symbolic(d.val(q)), evalf(d.val(q), at), plain(d.val(q)))))))]


reg(name="make_numerical", module="inflation/utils.py", fn="make_numerical", attrs=NATTRS, stubs={"float": FLOAT},
    setup=numerical_setup, ensures=numerical_ens, modifies=set())
