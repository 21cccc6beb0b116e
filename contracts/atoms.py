"""Contracts on how moments are classified when they are created.

An atom is made from a word of operators, either its indices or the set of them; the
arrays it is read from are opaque here: `letters` is the array of indices, `rows` the
table of the operators they stand for.
"""
from pyvc.objvc import Native, EQ, real
from .state import *
from .state import reg, ATTRS, dct, Atom, Any, R, I, B, fn, P_
from .moments import MOM, MATTRS, Listed, size, written_out, LISTED, counter

Word = Sort("Word")
n_letters = fn("n_letters", Word, I)
some_zero = fn("contains_the_zero_operator", Word, B)
support = fn("positions_of_true", Any, Word)
letters = fn("as_indices", Any, Word)
operators = fn("operators_of", Any, Word, Any)
commuting = fn("all_commuting", Word, B)
do_cond = fn("do_conditional", Any, B)
readable = fn("readable", Any, B)
columns = fn("party_setting_outcome", Any, Any)
rectified = fn("rectified", Any, Any)
named = fn("symbol_of", Any, Any)
isbool = fn("holds_truth_values", Any, B)
AATTRS = dict(ATTRS)
AATTRS[("Word", "len")] = n_letters
AATTRS[("Word", "size")] = n_letters
AATTRS[("Word", "shape")] = lambda w: (n_letters(w),)
AATTRS[("Word", "astype()")] = lambda eng, st, w, args, kw: [(st, w)]


class Dtype(Native):
    def __init__(self, v):
        self.v = v


class Lexorder(Native):
    """the table of all operators"""
    def __init__(self, ident):
        self.ident = ident

    def subscript(self, eng, st, k):
        if not (z3.is_expr(k) and k.sort() == Word):
            raise Unsupported("part of the table of operators")
        return [(st, operators(self.ident, k))]


AATTRS[("Any", "dtype")] = Dtype


def COMPARE(eng, st, op, a, b):
    if isinstance(a, Dtype) and getattr(b, "name", None) == "bool":
        return isbool(a.v) if op == "Eq" else NOT(isbool(a.v))
    return None


def word(eng, st, args, f):
    if not (args and z3.is_expr(args[0]) and args[0].sort() in (Any, Word)):
        raise Unsupported("array")
    return [(st, args[0] if args[0].sort() == Word else f(args[0]))]


def FLATNONZERO(eng, st, args, kw):
    return word(eng, st, args, support)


def ASARRAY(eng, st, args, kw):
    a = args[0]
    if z3.is_expr(a) and a.sort() == Any and getattr((list(args[1:]) + list(kw.values()) + [None])[0], "name", "").endswith("intc"):
        return word(eng, st, args, letters)
    if z3.is_expr(a):
        return [(st, a)]
    raise Unsupported("asarray")


def NPALL(eng, st, args, kw):
    a = args[0]
    if z3.is_expr(a) and a.sort() == Word:
        return [(st, NOT(some_zero(a)))]
    raise Unsupported("all")


def TAKE(eng, st, args, kw):
    a, k = args[0], args[1]
    if z3.is_expr(a) and a.sort() == Any and kw.get("axis") == 1 and isinstance(k, Ref) and [p[1] for p in st.heap[k.a].parts] == [0, -2, -1]:
        return [(st, columns(a))]
    raise Unsupported("take")


class NoRows(Native):
    """a table without rows"""


def EMPTY(eng, st, args, kw):
    if args and (args[0] == (0, 3) or args[0] == 0):
        return [(st, NoRows())]
    raise Unsupported("empty")


one = lambda f: (lambda eng, st, args, kw: [(st, f(args[-1]))])
ALIB = {"compare": COMPARE, "flatnonzero": FLATNONZERO, "asarray": ASARRAY, "all": NPALL, "take": TAKE, "empty": EMPTY,
        "all_commuting_q_1d": one(commuting), "is_do_conditional": one(do_cond), "nb_is_do_conditional": one(do_cond),
        "_atomic_knowable_q": one(readable), "rectify_fake_setting": one(rectified), "symbol_from_atom_name": one(named)}


def atom_setup(kind):
    def f(eng, st):
        ctx = eng.alloc(st, RecO(("inflation/lp/InflationLP.py" if kind == "lp" else "inflation/sdp/InflationSDP.py", "InflationLP" if kind == "lp" else "InflationSDP"),
                                 {"_lexorder": Lexorder(eng.fresh("lexorder", Any)), "_nr_properties": eng.fresh("nr_properties", I), "problem_type": kind}))
        r = eng.alloc(st, RecO((MOM, "InternalAtomicMonomial"), {"_name": eng.fresh("name", Any), "_raw_name": eng.fresh("raw_name", Any), "_signature": eng.fresh("signature", Any)}))
        w = var(Word, "w")
        return {"self": r, "args": [ctx, eng.fresh("as_1d_vec", Any)],
                "requires": [("a word has a length", z3.ForAll([w], n_letters(w) >= 0)),
                             ("without letters there is no zero", z3.ForAll([w], z3.Implies(n_letters(w) == 0, z3.Not(some_zero(w)))))]}
    return f


def atom_ens(kind):
    def ens(eng, pr, po, v, ctx):
        at = po.st.heap[ctx["self"].a].attrs
        need = ("as_lexmon", "as_2d_array", "n_operators", "is_one", "is_zero", "is_all_commuting", "is_do_conditional", "is_knowable", "context", "name", "legacy_name", "signature", "symbol")
        out = [(f"{a} is set", a in at) for a in need]
        if not all(a in at for a in need):
            return out
        par, x = ctx["args"]
        w = IT(isbool(x), support(x), letters(x))
        T = operators(pr.st.heap[par.a].attrs["_lexorder"].ident, w)
        zero = some_zero(w) if kind == "sdp" else False
        isone = n_letters(w) == 0
        triv = OR(isone, zero)
        know = OR(triv, AND(commuting(w), do_cond(T), readable(T)))
        rec = at.get("rectified_ndarray")
        good = True
        if rec is None:
            good = NOT(know)
        elif isinstance(rec, NoRows):
            good = IMP(know, triv)
        else:
            good = IMP(know, AND(NOT(triv), EQ(rec, rectified(columns(T)))))
        return [("its word is that of the indices, or of the positions that are set", EQ(at["as_lexmon"], w)),
                ("its operators are those of the word", EQ(at["as_2d_array"], T)),
                ("it has as many operators as the word", EQ(at["n_operators"], n_letters(w))),
                ("it is the identity when it has no operator", IFF(at["is_one"], isone)),
                ("it is zero when an operator is (in linear programs none is)", IFF(at["is_zero"], zero)),
                ("it is commuting when its operators are", IFF(at["is_all_commuting"], OR(triv, commuting(w)))),
                ("it is do-conditional when its operators are", IFF(at["is_do_conditional"], OR(triv, do_cond(T)))),
                ("it is readable exactly when it is commuting, do-conditional and an event of the original scenario, or trivial", IFF(at["is_knowable"], know)),
                ("its event is kept with the private settings, when it is readable", good),
                ("it belongs to the problem", isinstance(at["context"], Ref) and at["context"].a == par.a),
                ("name, legacy name and signature are its own", AND(EQ(at["name"], pr["_name"]), EQ(at["legacy_name"], pr["_raw_name"]), EQ(at["signature"], pr["_signature"]), EQ(at["symbol"], named(pr["_name"]))))]
    return ens


ATOM_SETS = {"as_lexmon", "as_2d_array", "n_operators", "op_length", "is_one", "is_zero", "is_all_commuting", "is_do_conditional", "is_knowable", "rectified_ndarray", "context",
             "name", "legacy_name", "signature", "symbol"}
for kind in ("lp", "sdp"):
    reg(name=f"InternalAtomicMonomial.__init__[{kind}]", module=MOM, fn="InternalAtomicMonomial.__init__", attrs=AATTRS, stubs=ALIB,
        setup=atom_setup(kind), ensures=atom_ens(kind), modifies=ATOM_SETS)


# ---------------------------------------------------------- products of atoms
class Factors(Native):
    """the factors, in some order: a finite multiset of atoms given by its Counter"""
    def __init__(self, d, whole):
        self.d, self.whole = d, whole

    def substituted(self, ps):
        return self

    def length(self, eng, st):
        return [(st, size(self.whole))]

    def iterate(self, eng, st):
        q, i = var(Atom, "q"), var(I, "i")
        return Gen([q, i], AND(self.d.dom(q), i >= 0, i < self.d.val(q)), q)


KAT = {"is_knowable": B, "is_do_conditional": B, "is_one": B, "is_zero": B, "n_operators": I, "name": Any, "legacy_name": Any, "symbol": Any, "as_lexmon": Word}
for k, srt in KAT.items():
    MATTRS[("Atom", k)] = fn("atom_" + k, Atom, srt)
    AATTRS[("Atom", k)] = MATTRS[("Atom", k)]


def split(g, i, t):
    """the conjuncts of a condition: without i, and the bound n of 0 <= i < n"""
    todo, rest, low, high = [t], [], False, []
    while todo:
        c = todo.pop()
        if isinstance(c, bool):
            if not c:
                return None
        elif z3.is_and(c):
            todo += list(c.children())
        elif not mentions(c, i):
            rest.append(c)
        elif z3.is_ge(c) and c.arg(0).eq(i) and z3.is_int_value(c.arg(1)) and c.arg(1).as_long() == 0:
            low = True
        elif z3.is_lt(c) and c.arg(0).eq(i) and not mentions(c.arg(1), i):
            high.append(c.arg(1))
        else:
            return None
    return (AND(*rest), high[0]) if low and len(high) == 1 else None


def mentions(t, x):
    seen, todo = set(), [t]
    while todo:
        c = todo.pop()
        if c.eq(x):
            return True
        if c.get_id() not in seen:
            seen.add(c.get_id())
            todo += list(c.children()) + ([c.body()] if z3.is_quantifier(c) else [])
    return False


def counted(eng, parts):
    """how often each atom occurs in a list of atoms made in pieces"""
    ns = []
    for p in parts:
        if isinstance(p, tuple):
            e = p[1]
            if not (z3.is_expr(e) and e.sort() == Atom):
                raise Unsupported("a list of other things than atoms")
            ns.append(lambda q, e=e: IT(q == e, z3.IntVal(1), z3.IntVal(0)))
            continue
        if not (z3.is_expr(p.elem) and p.elem.sort() == Atom and any(v.eq(p.elem) for v in p.vars)):
            raise Unsupported("a list of other things than the factors")
        x = p.elem
        other = [v for v in p.vars if not v.eq(x)]
        if not other:
            c, n = p.cond, z3.IntVal(1)
        elif len(other) == 1 and other[0].sort() == I and (r := split(p, other[0], p.cond)) is not None:
            c, n = r
        else:
            raise Unsupported("how often something occurs")
        ns.append(lambda q, c=c, n=n, x=x: IT(AND(sub(c, [(x, q)]), sub(n, [(x, q)]) > 0), sub(n, [(x, q)]), z3.IntVal(0)))
    tot = lambda q: sum([f(q) for f in ns], z3.IntVal(0))
    d = DictO(Atom, lambda q: tot(q) > 0, tot, COUNTER)
    return Factors(d, written_out(eng, d))


def same_factors(eng, st, args, kw):
    if len(args) != 1 or set(kw):
        raise Unsupported("sorted or tuple")
    a = args[0]
    if isinstance(a, Factors):
        return [(st, a)]
    if isinstance(a, Ref) and isinstance(st.heap[a.a], LstO):
        return [(st, counted(eng, st.heap[a.a].parts))]
    if isinstance(a, Gen):
        return [(st, counted(eng, [a]))]
    raise Unsupported("sorted or tuple of something else")


def COUNTER_OF(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], Factors) and not kw:
        st = st.copy()
        return [(st, eng.alloc(st, args[0].d))]
    raise Unsupported("Counter")


def compound_setup(eng, st):
    d = counter(eng, st, "count")
    q = var(Atom, "q")
    fs = Factors(d, written_out(eng, d))
    r = eng.alloc(st, RecO((MOM, "CompoundMoment"), {}))
    return {"self": r, "args": [fs], "requires": [("what is counted occurs", FA(Atom, lambda q: IMP(d.dom(q), d.val(q) > 0)))]}


class Joined(Native):
    """what a library function makes of one thing per factor"""
    def __init__(self, how, parts):
        self.how, self.parts = how, parts


def joined(how):
    def f(eng, st, args, kw):
        a = args[0]
        if len(args) != 1 or kw or not (isinstance(a, Ref) and isinstance(st.heap[a.a], LstO)):
            if isinstance(a, Gen) and len(args) == 1:
                return [(st, Joined(how, (a,)))]
            raise Unsupported(how)
        return [(st, Joined(how, st.heap[a.a].parts))]
    return f


def one_each(v, how, d, attr):
    """v is `how` of the attribute of each factor"""
    if not isinstance(v, Joined) or v.how != how:
        return False
    if not v.parts:
        return FA(Atom, lambda q: NOT(d.dom(q)))
    if len(v.parts) != 1 or isinstance(v.parts[0], tuple):
        return False
    g = v.parts[0]
    if [x.sort() for x in g.vars] != [Atom, I]:
        return False
    q, i = g.vars
    return z3.ForAll([q, i], zb(AND(IFF(g.cond, AND(d.dom(q), i >= 0, i < d.val(q))), IMP(g.cond, EQ(g.elem, AATTRS[("Atom", attr)](q))))))


def compound_ens(eng, pr, po, v, ctx):
    at = po.st.heap[ctx["self"].a].attrs
    fs = ctx["args"][0]
    d, n = fs.d, size(fs.whole)
    need = ("as_lexmon", "factors", "n_factors", "n_operators", "is_atomic", "is_do_conditional", "is_knowable", "as_counter", "knowable_factors", "unknowable_factors",
            "n_knowable_factors", "n_unknowable_factors", "knowability_status", "is_one", "is_zero", "name", "legacy_name", "symbol", "signature")
    out = [(f"{a} is set", a in at) for a in need]
    if not all(a in at for a in need):
        return out
    A = lambda nm, q: AATTRS[("Atom", nm)](q)
    every = lambda nm: FA(Atom, lambda q: IMP(d.dom(q), A(nm, q)))
    some = lambda nm: EX(Atom, lambda q: AND(d.dom(q), A(nm, q)))
    times = lambda o, q: IT(AND(o.dom(q), o.val(q) > 0), o.val(q), z3.IntVal(0))
    same = lambda x, f: FA(Atom, lambda q: EQ(times(x.d, q), f(q))) if isinstance(x, Factors) else False
    c = po.obj(at["as_counter"])
    q, i = var(Atom, "q"), var(I, "i")
    kn = lambda q: IT(AND(d.dom(q), A("is_knowable", q)), d.val(q), z3.IntVal(0))
    un = lambda q: IT(AND(d.dom(q), NOT(A("is_knowable", q))), d.val(q), z3.IntVal(0))
    empty = FA(Atom, lambda q: NOT(d.dom(q)))
    none = FA(Atom, lambda q: IMP(d.dom(q), NOT(A("is_knowable", q))))
    sta = at["knowability_status"]
    out += [("its factors are those given", same(at["factors"], lambda q: times(d, q))),
            ("and it is told apart by them", same(at["signature"], lambda q: times(d, q))),
            ("they are counted with their multiplicities", AND(*[FA(Atom, lambda q: EQ(times(c, q), times(d, q)))]) if isinstance(c, DictO) else False),
            ("the number of factors", EQ(at["n_factors"], n)),
            ("the number of operators is the sum of theirs", EQ(real(at["n_operators"]), real(eng.SUM([q, i], AND(d.dom(q), i >= 0, i < d.val(q)), A("n_operators", q))))),
            ("it is atomic when it has at most one factor", IFF(at["is_atomic"], n <= 1)),
            ("it is do-conditional when all factors are", IFF(at["is_do_conditional"], every("is_do_conditional"))),
            ("it is readable when all factors are", IFF(at["is_knowable"], every("is_knowable"))),
            ("the readable factors, with their multiplicities", same(at["knowable_factors"], kn)),
            ("the other factors, with their multiplicities", same(at["unknowable_factors"], un)),
            ("how many are readable", EQ(at["n_knowable_factors"], size(at["knowable_factors"].whole)) if isinstance(at["knowable_factors"], Factors) else False),
            ("how many are not", EQ(at["n_unknowable_factors"], size(at["unknowable_factors"].whole)) if isinstance(at["unknowable_factors"], Factors) else False),
            ("its status is Knowable when all factors are readable", IFF(sta == "Knowable", every("is_knowable"))),
            ("Unknowable when there are factors and none is", IFF(sta == "Unknowable", AND(NOT(empty), none))),
            ("else Semi", OR(*[sta == x for x in ("Knowable", "Unknowable", "Semi")])),
            ("it is the identity when all factors are", IFF(at["is_one"], every("is_one"))),
            ("it is zero when a factor is", IFF(at["is_zero"], some("is_zero"))),
            ("its name is that of its factors", one_each(at["name"], "name", d, "name")),
            ("and its legacy name", one_each(at["legacy_name"], "name", d, "legacy_name")),
            ("and its symbol", one_each(at["symbol"], "symbol", d, "symbol")),
            ("its operators are those of its factors", OR(empty, one_each(at["as_lexmon"], "joined", d, "as_lexmon")) if isinstance(at["as_lexmon"], Joined) else empty)]
    return out


opaque = lambda nm: (lambda eng, st, args, kw: [(st, eng.fresh(nm, Any))])
CLIB = {"sorted": same_factors, "tuple": same_factors, "Counter": COUNTER_OF, "hstack": joined("joined"), "empty": opaque("empty"),
        "name_from_atom_names": joined("name"), "symbol_prod": joined("symbol")}
reg(name="CompoundMoment.__init__", module=MOM, fn="CompoundMoment.__init__", attrs=AATTRS, stubs=CLIB, setup=compound_setup, ensures=compound_ens, modifies={
    "as_lexmon", "factors", "n_factors", "n_operators", "is_atomic", "is_do_conditional", "is_knowable", "as_counter", "knowable_factors", "unknowable_factors",
    "n_knowable_factors", "n_unknowable_factors", "knowability_status", "is_one", "is_zero", "name", "legacy_name", "symbol", "signature", "internal_type"})
