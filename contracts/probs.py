"""Contracts on how a distribution becomes values of moments.

A distribution is an array with one axis per party for outcomes followed by one
per party for settings. What an entry of a (summed) array is is kept symbolically:
which axes were summed over and which index stands on each of the other axes.
"""
from pyvc.objnp import Arr, LIB, new, update, as_arr, position, it_, isint
from pyvc.objvc import Native, HeapNative, EQ, Bd, real
from .state import *
from .state import reg, ATTRS, SDP, LP, sdp_self, lp_self, lp_inv, sdp_inv, setup_self, Mon, Atom, Any, R, I, B, fn, P_
from .moments import MOM, marginal

MU = "inflation/sdp/monomial_utils.py"


# ------------------------------------------------------------ tables of operators
class Table(HeapNative):
    """n rows (operators) of w numbers"""
    def __init__(self, n, w, get):
        self.n, self.w, self.get = n, w, get

    def isinstance(self, nm):
        return nm == "ndarray"

    def length(self, eng, st, ref):
        return [(st, self.n)]

    def attribute(self, eng, st, ref, attr):
        if attr == "shape":
            return [(st, (self.n, self.w))]
        if attr == "size":
            return [(st, self.n * self.w)]
        return [(st, Bd(ref, attr))]

    def col(self, c):
        if not isinstance(c, int):
            raise Unsupported("a column that is not a constant")
        c = c if c >= 0 else self.w + c
        if not 0 <= c < self.w:
            raise Unsupported("no such column")
        return c

    def iterate(self, eng, st, ref):
        return Rows(ref, self)

    def method(self, eng, st, ref, attr, args, kw):
        if attr == "copy" and not args and not kw:
            return new(eng, st, Table(self.n, self.w, self.get))
        raise Unsupported(f"{attr} of a table")

    def subscript(self, eng, st, ref, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == ("slice", None, None, None) and isinstance(k[1], int):
            eng.__dict__.setdefault("viewed", set()).add(ref.a)
            c = self.col(k[1])
            return new(eng, st, Arr(self.n, lambda i: self.get(i, c), False, True))
        raise Unsupported("subscript of a table")


class Row(HeapNative):
    """one row, on its own (a view: writing it writes the table)"""
    def __init__(self, cells, writable):
        self.cells, self.writable = list(cells), writable

    def at(self, k):
        if not isinstance(k, int) or not -len(self.cells) <= k < len(self.cells):
            raise Unsupported("a column that is not a constant")
        return k % len(self.cells)

    def subscript(self, eng, st, ref, k):
        return [(st, self.cells[self.at(k)])]

    def put(self, eng, st, ref, k, w):
        if not self.writable:
            raise Unsupported("assignment into a row")
        if isinstance(w, int) and not isinstance(w, bool):
            w = z3.IntVal(w)
        if not (z3.is_expr(w) and z3.is_int(w)):
            raise Unsupported("assignment into a row")
        cells = list(self.cells)
        cells[self.at(k)] = w
        return [(update(st, ref, Row(cells, True)), None)]


class RowN(Native):
    """one row, only looked at"""
    def __init__(self, cells):
        self.cells = list(cells)

    def substituted(self, ps):
        return RowN([z3.substitute(c, *ps) for c in self.cells])

    def subscript(self, eng, st, k):
        return [(st, self.cells[Row.at(self, k)])]


class Hidden(HeapNative):
    """what is gone through: nothing is said about its other rows"""


class Rows(Gen):
    """the rows of a table, one after the other"""
    def __init__(self, ref, table):
        i = var(I, "i")
        Gen.__init__(self, [i], AND(i >= 0, i < table.n), RowN([table.get(i, c) for c in range(table.w)]), None)
        self.ref, self.table, self.i = ref, table, i

    def start(self, eng, s):
        """the state in which one row is worked on"""
        if self.writing:
            s.heap[self.ref.a] = Hidden()
        self.row = eng.alloc(s, Row([self.table.get(self.i, c) for c in range(self.table.w)], self.writing))
        return self.row

    def end(self, eng, st, ends):
        if not self.writing:
            return st
        if self.ref.a in eng.__dict__.get("viewed", ()):
            raise Unsupported("a table of which a part was taken is written")
        cells = []
        for c in range(self.table.w):
            t = self.table.get(self.i, c)
            for s2, b in ends:
                t = IT(b, s2.heap[self.row.a].cells[c], t)
            cells.append(t)
        get = lambda k, c: z3.substitute(cells[c], (self.i, it_(k)))
        return update(st, self.ref, Table(self.table.n, self.table.w, get))

    def loop(self, eng, node, st):
        import ast
        from pyvc.objloops import search_loop
        self.writing = any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(node))
        eng.ctx.append(self.i)
        try:
            return search_loop(eng, node, st, [self.i], self.cond, None, self)
        finally:
            eng.ctx.pop()


class Dist(Native):
    """an array of a distribution, some of its axes summed over; `keep` enumerates the
    others: (how many, axis of the j-th, position of an axis)"""
    def __init__(self, ndim, summed=None):
        self.ndim, self.summed = ndim, summed or (lambda a: False)
        self.partial = summed is not None

    def attribute(self, eng, st, attr):
        if attr == "ndim" and not self.partial:
            return [(st, self.ndim)]
        if attr == "shape" and not self.partial:
            return new(eng, st, Arr(self.ndim, eng.fresh("extent", I, I), True))
        return [(st, Bd(self, attr))]

    def subscript(self, eng, st, k):
        o = as_arr(eng, st, k) if not isinstance(k, Arr) else k
        n, axis, place = self.ghost
        kept = lambda a: AND(a >= 0, a < self.ndim, NOT(self.summed(a)))
        i, j = var(I, "i"), var(I, "j")
        inn = lambda x: AND(x >= 0, x < n)
        for nm, g in (("there is an index for each axis that is left", EQ(o.n, n)),
                      ("the axes are enumerated in order", z3.ForAll([i, j], z3.Implies(zb(AND(inn(i), inn(j), i < j)), zb(axis(i) < axis(j))))),
                      ("only axes that are left are", z3.ForAll([i], z3.Implies(zb(inn(i)), zb(kept(axis(i)))))),
                      ("all of them are", z3.ForAll([i], z3.Implies(zb(kept(i)), zb(AND(inn(place(i)), axis(place(i)) == i)))))):
            eng.oblige(st, g, f"looking up a probability: {nm}", "pre")
        return [(st, Entry(self.summed, lambda a: o.get(place(a))))]


class Entry(Native):
    def __init__(self, summed, at):
        self.summed, self.at = summed, at


def axes_of(eng, st, x):
    """the set of axes given as a tuple, list or array of distinct numbers"""
    if x is None:
        raise Unsupported("a sum over all axes")
    if isinstance(x, Ref):
        o = st.heap[x.a]
        if isinstance(o, SetO):
            return o.mem
    s = eng.as_set(st, x)
    if not isinstance(s, SetO):
        return lambda a: False
    return s.mem


def sum_over(eng, st, d, args, kw):
    if set(kw) - {"axis"} or len(args) + len(kw) != 1:
        raise Unsupported("sum")
    x = kw["axis"] if kw else args[0]
    mem = axes_of(eng, st, x)
    if d.partial:
        raise Unsupported("a sum of a sum")
    r = Dist(d.ndim, mem)
    r.ghost = d.ghost
    a = var(I, "a")
    eng.oblige(st, z3.ForAll([a], z3.Implies(zb(mem(a)), zb(AND(a >= 0, a < d.ndim)))), "axes summed over exist", "pre")
    return [(st, r)]


def NPSUM(eng, st, args, kw):
    if not args or not isinstance(args[0], Dist):
        raise Unsupported("sum")
    return sum_over(eng, st, args[0], args[1:], kw)


def TUPLE(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], (Arr, SetO)):
        o = st.heap[args[0].a]
        return new(eng, st, Arr(o.n, o.get, True)) if isinstance(o, Arr) else [(st, args[0])]
    if len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], LstO) and len(st.heap[args[0].a].parts) == 1:
        return [(st, args[0])]
    return eng.default(st, "tuple", args, kw)


def marg_setup(eng, st):
    n, parties = eng.fresh("rows", I), eng.fresh("parties", I)
    f = fn("cell", I, I, I)
    t = Table(n, 3, lambda i, c: f(i, z3.IntVal(c)))
    atom = eng.alloc(st, t)
    row = eng.fresh("row_of", I, I)
    d = Dist(2 * parties)
    i, j = var(I, "i"), var(I, "j")
    inn = lambda x: AND(x >= 0, x < n)
    party = lambda x: t.get(x, 0) - 1
    present = lambda a: AND(a >= 0, a < parties, inn(row(a)), party(row(a)) == a)
    d.ghost = (n + parties, lambda x: z3.If(zb(x < n), party(x), parties + x - n), lambda a: z3.If(zb(a < parties), row(a), a - parties + n))
    eng.dist = (t, parties, row, present)
    return {"args": [d, atom],
            "requires": [("there are parties", parties > 0), ("rows", n >= 0),
                         ("parties are numbered from one and are distinct and in order", z3.And(
                             z3.ForAll([i], z3.Implies(zb(inn(i)), zb(AND(party(i) >= 0, party(i) < parties, row(party(i)) == i)))),
                             z3.ForAll([i, j], z3.Implies(zb(AND(inn(i), inn(j), i < j)), zb(party(i) < party(j))))))]}


def marg_ens(eng, pr, po, v, ctx):
    t, parties, row, present = eng.dist
    if not isinstance(v, Entry):
        return [("an event without operators has probability one", AND(t.n == 0, EQ(real(v), 1)) if not isinstance(v, Native) else False)]
    a = var(I, "a")
    al = lambda g: z3.ForAll([a], zb(g))
    p = a - parties
    setting = z3.If(zb(present(p)), t.get(row(p), 1), z3.IntVal(0))
    return [("there is an operator", t.n > 0),
            ("the outcomes of the parties that take no part are summed over, and nothing else",
             al(IFF(v.summed(a), AND(a >= 0, a < parties, NOT(present(a)))))),
            ("outcomes are those of the event", al(IMP(present(a), EQ(real(v.at(a)), real(t.get(row(a), 2)))))),
            ("settings are those of the event, and the first for parties that take no part",
             al(IMP(AND(a >= parties, a < 2 * parties), EQ(real(v.at(a)), real(setting)))))]


MLIB = dict(LIB, tuple=TUPLE, sum=NPSUM)
reg(name="compute_marginal", module=MU, fn="compute_marginal", attrs=ATTRS, stubs=MLIB, setup=marg_setup, ensures=marg_ens)


# ----------------------------------------------------------- marginals of an atom
rows_marginal = fn("marginal_of_rows", Any, Any, R)


def atom_self(eng, st):
    return eng.alloc(st, RecO((MOM, "InternalAtomicMonomial"), {"is_zero": eng.fresh("is_zero", B), "rectified_ndarray": eng.fresh("rectified", Any)}))


def atom_ens(eng, pr, po, v, ctx):
    return [("the zero atom has probability zero, any other that of its event with the private settings",
             EQ(real(v), IT(pr["is_zero"], z3.RealVal(0), rows_marginal(ctx["args"][0], pr["rectified_ndarray"]))))]


reg(name="InternalAtomicMonomial.compute_marginal", module=MOM, fn="InternalAtomicMonomial.compute_marginal", attrs=ATTRS,
    stubs={"compute_marginal": lambda eng, st, args, kw: [(st, rows_marginal(args[0], args[1]))]},
    setup=lambda eng, st: {"self": atom_self(eng, st), "args": [eng.fresh("prob_array", Any)]}, ensures=atom_ens, modifies=set())


# ------------------------------------------------------------- setting a distribution
mon_marginal = fn("marginal_of_moment", Any, Mon, R)
shape = fn("shape", Any, Any)
PATTRS = dict(ATTRS)
PATTRS[("Mon", "compute_marginal()")] = lambda eng, st, m, args, kw: [(st, mon_marginal(args[0], m))]
PATTRS[("Any", "shape")] = shape


def SET_VALUES(eng, st, args, kw):
    """which call is made"""
    st = st.copy()
    o = st.heap[args[0].a]
    if "handed" in o.attrs:
        raise Unsupported("set_values called twice")
    a = list(args[1:])
    at = lambda i, nm: a[i] if len(a) > i else kw.get(nm, False)
    st.heap[args[0].a] = RecO(o.cls, dict(o.attrs, handed=(a[0] if a else kw["values"], at(1, "use_lpi_constraints"), at(2, "only_specified_values"))))
    return [(st, None)]


def dist_self(mk):
    def f(eng, st):
        r = mk(eng, st)
        a = dict(st.heap[r.a].attrs)
        g = eng.fresh("readable", B, Mon)
        k = var(Mon, "k")
        a["knowable_atoms"] = eng.alloc(st, LstO((Gen([k], g(k), k),)))
        a["expected_distro_shape"] = eng.fresh("expected_shape", Any)
        st.heap[r.a] = RecO(st.heap[r.a].cls, a)
        return r
    return f


def dist_ens(none, checked):
    def ens(eng, pr, po, v, ctx):
        if not po.has("handed"):
            return [("values are set", False)]
        a = po.st.heap[ctx["self"].a].attrs["handed"]
        d = po.obj(a[0])
        out = [("linear constraints are used as asked", EQ(zb(a[1]), zb(ctx["kw"].get("use_lpi_constraints", False)))),
               ("with shared randomness only atoms get values", EQ(zb(a[2]), zb(ctx["kw"].get("shared_randomness", False))))]
        if checked and not none:
            out.append(("the array has the shape of the scenario", EQ(shape(ctx["args"][0]), pr["expected_distro_shape"])))
        if none:
            if d is None:
                return out
            return out + [("no value is handed over", True if d.ksort is None else forall(lambda q: NOT(d.dom(q))))]
        p, at = ctx["args"][0], lambda q: contains(pr["knowable_atoms"], q)
        if not isinstance(d, DictO) or d.ksort is None:
            return out + [("the values of the atoms are handed over", forall(lambda q: NOT(at(q))))]
        return out + [("exactly the readable atoms get values", forall(lambda q: IFF(d.dom(q), at(q)))),
                      ("the probabilities of their events", forall(lambda q: IMP(at(q), EQ(real(d.val(q)), mon_marginal(p, q)))))]
    return ens


for cls, mod, mk, inv in (("InflationSDP", SDP, sdp_self, sdp_inv), ("InflationLP", LP, lp_self, lp_inv)):
    for none, plain in ((False, False), (True, False), (False, True)):
        base = setup_self(dist_self(mk), inv, lambda eng, st, P, none=none: [None if none else eng.fresh("prob_array", Any)])

        def setup(eng, st, base=base, plain=plain):
            c = base(eng, st)
            c["kw"] = {} if plain else {"use_lpi_constraints": eng.fresh("lpi_arg", B), "shared_randomness": eng.fresh("shared", B)}
            return c
        bad = {} if cls == "InflationSDP" or none else {"AssertionError": (lambda eng, pr, po, ctx: [
            ("the array is not of the shape of the scenario", NOT(EQ(shape(ctx["args"][0]), pr["expected_distro_shape"])))], set())}
        reg(name=f"{cls}.set_distribution" + ("[none]" if none else "[defaults]" if plain else ""), module=mod, fn=f"{cls}.set_distribution", attrs=PATTRS,
            stubs={"set_values": SET_VALUES}, setup=setup, ensures=dist_ens(none, cls != "InflationSDP"), raises=bad, modifies={"handed"})


# --------------------------------------------------- events with parents (non-networks)
IP = "inflation/InflationProblem.py"


class Parents(Native):
    """for each party the list of those its settings depend on"""
    def __init__(self, n, many, which):
        self.n, self.many, self.which = n, many, which

    def subscript(self, eng, st, k):
        eng.oblige(st, AND(it_(k) >= 0, it_(k) < self.n), "the party exists", "pre")
        return new(eng, st, Arr(self.many(it_(k)), lambda j: self.which(it_(k), j), True))


class Settings(Native):
    """for each party and effective setting: the private setting, then an outcome of each parent"""
    def __init__(self, parents, sets, private, outcome, party=None):
        self.parents, self.sets, self.private, self.outcome, self.party = parents, sets, private, outcome, party

    def subscript(self, eng, st, k):
        if self.party is None:
            eng.oblige(st, AND(it_(k) >= 0, it_(k) < self.parents.n), "the party exists", "pre")
            return [(st, Settings(self.parents, self.sets, self.private, self.outcome, it_(k)))]
        p, s = self.party, it_(k)
        eng.oblige(st, AND(s >= 0, s < self.sets(p)), "the party has the setting", "pre")
        return new(eng, st, Arr(1 + self.parents.many(p), lambda j: z3.If(zb(it_(j) == 0), self.private(p, s), self.outcome(p, s, it_(j) - 1)), True))


class Flags(Arr):
    """an array of truth values"""
    def subscript(self, eng, st, ref, k):
        r = Arr.subscript(self, eng, st, ref, k)
        return [(s, x) if not isinstance(x, Ref) else (update(s, x, Flags(s.heap[x.a].n, s.heap[x.a].get)), x) for s, x in r]

    def method(self, eng, st, ref, attr, args, kw):
        if attr in ("any", "all") and not args and not kw:
            i = var(I, "i")
            q = z3.Exists([i], zb(AND(self.inside(i), self.get(i)))) if attr == "any" else z3.ForAll([i], z3.Implies(zb(self.inside(i)), zb(self.get(i))))
            return [(st, q)]
        return Arr.method(self, eng, st, ref, attr, args, kw)

    def put(self, eng, st, ref, k, w):
        if not isinstance(w, bool):
            raise Unsupported("assignment of something else than a truth value")
        s2, n = new(eng, st, Arr(self.n, lambda i: z3.If(zb(self.get(i)), z3.IntVal(1), z3.IntVal(0))))[0]
        out = []
        for s, e in s2.heap[n.a].put(eng, s2, n, k, z3.IntVal(1 if w else 0)):
            g = s.heap[n.a].get
            out.append((update(s, ref, Flags(self.n, lambda i: g(i) == 1)), e))
        return out


def FILL(v):
    def f(eng, st, args, kw):
        t = kw.get("dtype")
        if t is not None and "bool" in getattr(t, "name", str(t)):
            return new(eng, st, Flags(args[0][0] if isinstance(args[0], tuple) else args[0], lambda i: z3.BoolVal(v == 1)))
        return LIB["ones" if v else "zeros"](eng, st, args, kw)
    return f


def SAME(eng, st, args, kw):
    """np.array, asarray of an array: a copy, or the array itself"""
    o = st.heap[args[0].a] if isinstance(args[0], Ref) else None
    if isinstance(o, Table) and len(args) == 1 and set(kw) <= {"copy", "dtype"}:
        if kw.get("copy", True) is False:
            return [(st, args[0])]
        return new(eng, st, Table(o.n, o.w, o.get))
    raise Unsupported("array")


def ASIS(eng, st, args, kw):
    o = st.heap[args[0].a] if isinstance(args[0], Ref) else None
    if isinstance(o, Table) and len(args) == 1 and set(kw) <= {"dtype"}:
        return [(st, args[0])]
    return LIB["asarray"](eng, st, args, kw)


def EQUAL(eng, st, args, kw):
    a, b = [as_arr(eng, st, x) for x in args]
    i = var(I, "i")
    return [(st, AND(EQ(a.n, b.n), z3.ForAll([i], z3.Implies(zb(a.inside(i)), zb(EQ(real(a.get(i)), real(b.get(i))))))))]


def PARTS(eng, st, args, kw):
    """partsextractor(dictionary, positions): by its contract the values at these keys"""
    d = st.heap[args[0].a]
    ks = as_arr(eng, st, args[1])
    i = var(I, "i")
    if not isinstance(d, DictO) or d.ksort != I:
        raise Unsupported("partsextractor")
    eng.oblige(st, z3.ForAll([i], z3.Implies(zb(ks.inside(i)), zb(d.dom(ks.get(i))))), "partsextractor is called with: every key exists", "pre")
    return new(eng, st, Arr(ks.n, lambda j: d.val(ks.get(j)), True))


NLIB = dict(LIB, tuple=TUPLE, array=SAME, asarray=ASIS, ones=FILL(1), zeros=FILL(0), array_equal=EQUAL, partsextractor=PARTS)


def events_setup(eng, st):
    n, parties = eng.fresh("rows", I), eng.fresh("parties", I)
    f = fn("cell", I, I, I)
    t = Table(n, 3, lambda i, c: f(it_(i), z3.IntVal(c)))
    mon = eng.alloc(st, t)
    many, which, sets = eng.fresh("n_parents", I, I), eng.fresh("parent", I, I, I), eng.fresh("n_settings", I, I)
    private, outcome = eng.fresh("private", I, I, I), eng.fresh("parent_outcome", I, I, I, I)
    P = Parents(parties, many, which)
    r = eng.alloc(st, RecO((IP, "InflationProblem"), {"nr_parties": parties, "parents_per_party": P,
                                                     "effective_to_parent_settings": Settings(P, sets, private, outcome)}))
    i, j = var(I, "i"), var(I, "j")
    inn = lambda x: AND(x >= 0, x < n)
    party = lambda x: t.get(x, 0) - 1
    eng.event = (t, parties, P, private, outcome)
    isp = lambda x: AND(x >= 0, x < parties)
    return {"self": r, "args": [mon],
            "requires": [("there are rows and parties", AND(n >= 0, parties >= 0)),
                         ("operators are of parties, with settings they have", z3.ForAll([i], z3.Implies(zb(inn(i)), zb(AND(isp(party(i)), t.get(i, 1) >= 0, t.get(i, 1) < sets(party(i))))))),
                         ("one per party", z3.ForAll([i, j], z3.Implies(zb(AND(inn(i), inn(j), party(i) == party(j))), i == j))),
                         ("parents are parties", z3.ForAll([i, j], z3.Implies(zb(AND(isp(i), j >= 0, j < many(i))), zb(isp(which(i, j)))))),
                         ("there may be none", z3.ForAll([i], many(i) >= 0))]}


def rect_ens(eng, pr, po, v, ctx):
    t, parties, P, private, outcome = eng.event
    r = po.obj(v)
    if not isinstance(r, Table):
        return [("an array of operators is returned", False)]
    i = var(I, "i")
    al = lambda g: z3.ForAll([i], z3.Implies(zb(AND(i >= 0, i < t.n)), zb(g)))
    return [("all operators are kept", AND(EQ(r.n, t.n), r.w == t.w)),
            ("with their parties and outcomes", al(AND(r.get(i, 0) == t.get(i, 0), r.get(i, 2) == t.get(i, 2)))),
            ("the setting is the private part of the effective one", al(r.get(i, 1) == private(t.get(i, 0) - 1, t.get(i, 1))))]


reg(name="InflationProblem.rectify_fake_setting", module=IP, fn="InflationProblem.rectify_fake_setting", attrs=ATTRS, stubs=NLIB,
    setup=events_setup, ensures=rect_ens, modifies=set())


def know_ens(eng, pr, po, v, ctx):
    t, parties, P, private, outcome = eng.event
    inn = lambda x: AND(x >= 0, x < t.n)
    party = lambda x: t.get(x, 0) - 1
    i, j, k = var(I, "i"), var(I, "j"), var(I, "k")
    par = lambda i, k: P.which(party(i), k)
    there = z3.Exists([j], zb(AND(inn(j), party(j) == par(i, k), t.get(j, 2) == outcome(party(i), t.get(i, 1), k))))
    good = z3.ForAll([i, k], z3.Implies(zb(AND(inn(i), k >= 0, k < P.many(party(i)))), there))
    b = zb(v)
    return [("readable: each parent is there, with the outcome the operator is set to", IMP(b, good)), ("and whenever this is so", IMP(good, b))]


reg(name="InflationProblem._is_knowable_q_non_networks", module=IP, fn="InflationProblem._is_knowable_q_non_networks", attrs=ATTRS, stubs=NLIB,
    setup=events_setup, ensures=know_ens, modifies=set())


# ----------------------------------------------------------- which moments are readable
readable, in_order, short = fn("is_knowable", Any, B), fn("is_knowable_q_non_networks", Any, B), fn("party_setting_outcome", Any, Any)


def TAKE(eng, st, args, kw):
    """the columns of party, setting and outcome"""
    cols = args[1]
    cols = [x[1] for x in st.heap[cols.a].parts] if isinstance(cols, Ref) else list(cols)
    if cols != [0, -2, -1] or kw != {"axis": 1} or not (z3.is_expr(args[0]) and args[0].sort() == Any):
        raise Unsupported("take")
    return [(st, short(args[0]))]


def q_setup(mk):
    def setup(eng, st):
        r = mk(eng, st)
        st.heap[r.a] = RecO(st.heap[r.a].cls, dict(st.heap[r.a].attrs, network_scenario=eng.fresh("network", B)))
        return {"self": r, "args": [eng.fresh("operators", Any)]}
    return setup


for cls, mod, mk, inv in (("InflationSDP", SDP, sdp_self, sdp_inv), ("InflationLP", LP, lp_self, lp_inv)):
    reg(name=f"{cls}._atomic_knowable_q", module=mod, fn=f"{cls}._atomic_knowable_q", attrs=ATTRS,
        stubs={"is_knowable": lambda eng, st, args, kw: [(st, readable(args[0]))], "_is_knowable_q_non_networks": lambda eng, st, args, kw: [(st, in_order(args[-1]))], "take": TAKE},
        setup=q_setup(mk), modifies=set(),
        ensures=lambda eng, pr, po, v, ctx: [("readable: one copy of each party, joined by sources as in the scenario, and with parents there and obeyed",
                                             IFF(zb(v), AND(readable(ctx["args"][0]), OR(pr["network_scenario"], in_order(short(ctx["args"][0]))))))])


has_factor, mono = fn("has_factor", Mon, Atom, B), fn("monomial_of_atom", Atom, Mon)
AATTRS = dict(ATTRS)
AATTRS[("Mon", "factors")] = lambda m: SetO(Atom, lambda a: has_factor(m, a))


def ONE_ATOM(eng, st, args, kw):
    o = st.heap[args[-1].a] if isinstance(args[-1], Ref) else args[-1]
    xs = [p[1] for p in o.parts] if isinstance(o, LstO) else list(o)
    if len(xs) != 1:
        raise Unsupported("a monomial of several atoms")
    return [(st, mono(xs[0]))]


def SORTED(eng, st, args, kw):
    """a list of the same elements"""
    if kw or len(args) != 1:
        raise Unsupported("sorted")
    return eng.default(st, "list", args, kw)


def listed_(eng, po, v, srt):
    """membership in the list returned"""
    o = po.obj(v)
    g = lambda q: eng.member(po.st, q, o)
    return g


for cls, mod, mk, inv, ms in (("InflationSDP", SDP, sdp_self, sdp_inv, "moments"), ("InflationLP", LP, lp_self, lp_inv, "monomials")):
    some = lambda P, ms, f: EX(Mon, lambda m: AND(contains(P[ms], m), f(m)))
    reg(name=f"{cls}.atomic_monomials", module=mod, fn=f"{cls}.atomic_monomials", attrs=AATTRS, stubs={"_monomial_from_atoms": ONE_ATOM, "sorted": SORTED},
        setup=setup_self(mk, inv), modifies=set(),
        ensures=lambda eng, pr, po, v, ctx, ms=ms: (lambda g: [("the atoms of all moments, each as a moment", forall(
            lambda q: IFF(g(q), EX(Atom, lambda a: AND(q == mono(a), some(pr, ms, lambda m: has_factor(m, a)))))))])(listed_(eng, po, v, Mon)))
    reg(name=f"{cls}.knowable_atoms", module=mod, fn=f"{cls}.knowable_atoms", attrs=AATTRS, stubs={"_monomial_from_atoms": ONE_ATOM, "sorted": SORTED},
        setup=setup_self(mk, inv), modifies=set(),
        ensures=lambda eng, pr, po, v, ctx, ms=ms: (lambda g: [("the readable ones among the atoms of all moments", forall(
            lambda q: IFF(g(q), AND(flags["is_knowable"](q), EX(Atom, lambda a: AND(q == mono(a), some(pr, ms, lambda m: has_factor(m, a))))))))])(listed_(eng, po, v, Mon)))
