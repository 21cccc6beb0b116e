"""Contracts on the sparse program of InflationLP: what `_prepare_solver_matrices`
hands to the solver.

A dictionary has an iteration order, the same in every list made of it; a list
or array made by going through it once is *aligned* with it (`Vec`). Only this
is used of the order: the i-th entries of two aligned arrays belong to the same
key. A matrix given by triplets is the sum of its triplets.
"""
from pyvc.objvc import Native, Star, Bn, EQ
from .state import *
from .state import reg, ATTRS, dct, LP, LPC, lp_self, setup_self, contains, with_attr

UTILS = "inflation/utils.py"


def token(eng, g):
    """what a family runs through, in its order"""
    if isinstance(g.seq, tuple) and g.seq[0] in ("dict", "listed"):
        return eng.pins[g.seq[2]]
    raise Unsupported("an array in no known order")


def count(eng, st, o):
    r = eng.alloc(st, o)
    return eng.length(st, r)[0]


class Vec(Native):
    """len(elems) consecutive entries for each key of a family, in its order"""
    def __init__(self, gen, elems):
        self.gen, self.elems = gen, list(elems)

    def length(self, eng, st):
        st, n = count(eng, st.copy(), token(eng, self.gen))
        return [(st, n * len(self.elems))]

    def like(self, other):
        """the entries of an aligned array, over my variables"""
        if self.gen.seq[1:] != other.gen.seq[1:]:
            a, b = self.gen.seq, other.gen.seq
            if not (a[0] == b[0] == "loop" and a[1] == b[1] and b[3] and not a[3]):
                raise Unsupported("arrays that are not aligned")
            # in each iteration: a constant, as often as there are keys
            n = b[2][1]
            outer = list(zip(other.gen.vars[:-1], self.gen.vars[:-1]))
            s, m = count(self.eng, self.st.copy(), self.eng.pins[a[2][1]])
            own = list(zip([z3.Const(x, v.sort()) for x, v in zip(a[1], self.gen.vars)], self.gen.vars))
            if not self.eng.proves(s.pcs() + [zb(self.gen.cond)], zb(EQ(sub(n, own), sub(m, own))), 3000):
                raise Unsupported("arrays of unlike length")
            return [sub(e, outer) for e in other.elems]
        ps = list(zip(other.gen.vars, self.gen.vars))
        return [sub(e, ps) for e in other.elems]

    def unary(self, eng, st, op):
        if op == "USub":
            return [(st, Vec(self.gen, [-real(e) for e in self.elems]))]
        raise Unsupported(op)

    def iterate(self, eng, st):
        if len(self.elems) == 1:
            return Gen(self.gen.vars, self.gen.cond, self.elems[0], ("listed",) + self.gen.seq[1:])
        raise Unsupported("going through a flattened array")


class Const(Native):
    """n times the same"""
    def __init__(self, n, v):
        self.n, self.v = n, v

    def length(self, eng, st):
        return [(st, self.n)]

    def iterate(self, eng, st):
        j = var(I, "j")
        return Gen([j], z3.And(0 <= j, j < self.n), self.v, ("const", -1, self.n))

    def unary(self, eng, st, op):
        if op == "USub":
            return [(st, Const(self.n, -self.v))]
        raise Unsupported(op)


class Rep(Native):
    """0, 1, ..., n - 1, each k times"""
    def __init__(self, n, k=1):
        self.n, self.k = n, k


class Rows(Native):
    """arrays of one length on top of each other"""
    def __init__(self, rows, turned=False):
        self.rows, self.turned = rows, turned

    def attribute(self, eng, st, attr):
        if attr == "T":
            return [(st, Rows(self.rows, not self.turned))]
        if attr == "ravel":
            return [(st, Ravel(self))]
        raise Unsupported(attr)


class Ravel(Native):
    def __init__(self, of):
        self.of = of

    def call(self, eng, st, args, kw):
        if args or kw or not self.of.turned:
            raise Unsupported("ravel")
        main = next((r for r in self.of.rows if isinstance(r, Vec)), None)
        if main is None or len(main.elems) != 1:
            raise Unsupported("ravel")
        out = []
        for r in self.of.rows:
            if isinstance(r, Vec):
                out += main.like(r)
            else:
                st = same_length(eng, st, r, main)
                out.append(r.v)
        return [(st, Vec(main.gen, out))]


def same_length(eng, st, c, v):
    st, n = v.length(eng, st)[0]
    if not (isinstance(c, Const) and eng.proves(st.pcs(), zb(EQ(c.n, n)), 3000)):
        raise Unsupported("arrays of unlike length")
    return st


def as_vec(eng, st, v):
    if isinstance(v, (Vec, Const, Rep)):
        return v
    if isinstance(v, Ref):
        o = st.heap[v.a]
        if isinstance(o, LstO) and len(o.parts) == 1 and not isinstance(o.parts[0], tuple):
            g = o.parts[0]
            if isinstance(g.seq, tuple) and g.seq[0] == "loop":
                v = Vec(g, [g.elem])
                v.eng, v.st = eng, st
                return v
            token(eng, g)
            return Vec(g, g.elem.items) if isinstance(g.elem, Flat) else Vec(g, [g.elem])
        if isinstance(o, LstO) and not o.parts:
            return Const(0, 0)
    if isinstance(v, tuple) and not v:
        return Const(0, 0)
    if isinstance(v, Gen):
        token(eng, v)
        return Vec(v, [v.elem])
    raise Unsupported("array")


class Flat:
    """an element of a family that stands for several entries"""
    def __init__(self, items):
        self.items = tuple(items)


class Block:
    """triplets (row, column, value) for the keys of a family; a row may be
    ("rank", o): one row for each key of o"""
    def __init__(self, vars, cond, triplets):
        self.vars, self.cond, self.triplets = list(vars), cond, list(triplets)

    def at(self, ks):
        ps = list(zip(self.vars, ks))
        return sub(self.cond, ps), [tuple(x if isinstance(x, tuple) else sub(x, ps) for x in t) for t in self.triplets]


class Mat(Native):
    """a sparse matrix given by triplets, in the order of `vec` if there is one"""
    def __init__(self, shape, blocks, vec=None, col=None, data=None):
        self.shape, self.blocks, self.vec, self.col, self.data = shape, blocks, vec, col, data

    def attribute(self, eng, st, attr):
        if attr == "shape":
            return [(st, self.shape)]
        if attr in ("col", "data") and getattr(self, attr) is not None:
            return [(st, getattr(self, attr))]
        if attr == "nnz" and self.data is not None:
            return self.data.length(eng, st)
        raise Unsupported(f"{attr} of a matrix")


class Stack(Native):
    """matrices on top of each other"""
    def __init__(self, parts):
        self.parts = parts


def COO(eng, st, args, kw):
    if len(args) != 1 or set(kw) - {"shape"} or not isinstance(args[0], tuple):
        raise Unsupported("coo_array")
    shape = kw.get("shape")
    if not (isinstance(shape, tuple) and len(shape) == 2):
        raise Unsupported("a matrix without a shape")
    if not (len(args[0]) == 2 and isinstance(args[0][1], tuple) and len(args[0][1]) == 2):
        raise Unsupported("coo_array")
    data, (row, col) = args[0]
    data, row, col = [as_vec(eng, st, x) for x in (data, row, col)]
    if not isinstance(data, Vec) and not isinstance(col, Vec):
        if isinstance(data, Const) and data.n == 0 and isinstance(col, Const) and col.n == 0:
            return [(st, Mat(shape, []))]
        raise Unsupported("coo_array")
    main = next(x for x in (data, col, row) if isinstance(x, Vec) and not (x.gen.seq[0] == "loop" and x.gen.seq[3]))
    k = len(main.elems)
    out = []
    for x in (row, col, data):
        if isinstance(x, Vec):
            es = main.like(x)
        elif isinstance(x, Rep):
            s2, n = count(eng, st.copy(), token(eng, main.gen))
            if x.k != k or not eng.proves(s2.pcs(), zb(EQ(x.n, n)), 3000):
                raise Unsupported("rows that do not match")
            st = s2
            es = [("rank", token(eng, main.gen))] * k
        else:
            st = same_length(eng, st, x, main)
            es = [x.v] * k
        if len(es) != k:
            raise Unsupported("arrays of unlike length")
        out.append(es)
    return [(st, Mat(shape, [Block(main.gen.vars, main.gen.cond, list(zip(*out)))], main, col, data))]


def whole(x):
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def FILL(v):
    def f(eng, st, args, kw):
        if len(args) != 1 or set(kw) - {"dtype"} or not isnum(args[0]):
            raise Unsupported("array")
        return [(st, Const(args[0], v))]
    return f


def ARANGE(eng, st, args, kw):
    if len(args) == 1 and isnum(args[0]) and not kw:
        return [(st, Rep(args[0]))]
    raise Unsupported("arange")


def REPEAT(eng, st, args, kw):
    if len(args) == 2 and not kw and isinstance(args[0], Rep) and args[0].k == 1 and isinstance(args[1], int):
        return [(st, Rep(args[0].n, args[1]))]
    if len(args) == 2 and not kw and isnum(args[0]) and isnum(args[1]):
        return [(st, Const(args[1], args[0]))]
    raise Unsupported("repeat")


def SUMS(eng, st, args, kw):
    """sum(list of tuples, ()): the tuples one after the other"""
    if len(args) == 2 and args[1] == () and isinstance(args[0], Ref):
        o = st.heap[args[0].a]
        if isinstance(o, LstO) and len(o.parts) == 1 and isinstance(o.parts[0], Gen) and isinstance(o.parts[0].elem, tuple):
            g = o.parts[0]
            token(eng, g)
            return [(st, Vec(g, g.elem))]
    return eng.default(st, "sum", args, kw)


def LISTING(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], Vec):
        return [(st, args[0])]
    return eng.default(st, "list", args, kw)


def PARTS(eng, st, args, kw):
    """partsextractor(dictionary, keys): the values of the keys in their order"""
    d = st.heap[args[0].a] if isinstance(args[0], Ref) else None
    v = as_vec(eng, st, args[1])
    if not isinstance(d, DictO):
        raise Unsupported("partsextractor")
    if not isinstance(v, Vec):
        return [(st, Const(0, 0))]
    if len(v.elems) != 1 or v.elems[0].sort() != d.ksort:
        raise Unsupported("partsextractor")
    all_there = z3.ForAll(v.gen.vars, z3.Implies(zb(v.gen.cond), zb(d.dom(v.elems[0]))))
    out = []
    for s, t in eng.fork(st, all_there):
        out.append((s, Vec(v.gen, [d.val(v.elems[0])])) if t else (s, Exc("KeyError")))
    return out


def VSTACK(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], tuple) and not kw:
        return [(st, Stack(list(args[0])))]
    if len(args) == 1 and isinstance(args[0], tuple) and set(kw) <= {"format"}:
        return [(st, Stack(list(args[0])))]
    raise Unsupported("vstack")


def NPVSTACK(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], tuple) and not kw and all(isinstance(x, (Vec, Const)) for x in args[0]):
        return [(st, Rows(list(args[0])))]
    return VSTACK(eng, st, args, kw)


LIB = {"coo_array": COO, "zeros": FILL(0), "ones": FILL(1), "arange": ARANGE, "repeat": REPEAT, "sum": SUMS, "list": LISTING, "vstack": NPVSTACK, "numpy.vstack": NPVSTACK}
TOLP = dict(LIB, partsextractor=PARTS)
Opaque = Sort("GivenMatrix")


def mat_self(eng, st):
    r = lp_self(eng, st)
    a = dict(st.heap[r.a].attrs)
    a["compmonomial_to_idx"] = eng.alloc(st, dct(eng, "index", (I,)))
    a["n_columns"] = eng.fresh("n_columns", I)
    a["sparse_equalities"] = eng.fresh("sparse_equalities", Opaque)
    a["sparse_inequalities"] = eng.fresh("sparse_inequalities", Opaque)
    a["monomial_names"] = eng.fresh("monomial_names", Sort("NameTable"))
    a["_lp_has_been_generated"] = eng.fresh("generated", B)
    st.heap[r.a] = RecO(st.heap[r.a].cls, a)
    return r


def mat_inv(P):
    ix = P["compmonomial_to_idx"]
    return [("the variables of the program are the moments", forall(lambda q: IFF(ix.dom(q), contains(P["monomials"], q))))]


def row_vector(eng, P, what, m, d):
    """a one-row matrix that carries each value of d in the column of its moment"""
    ix = P["compmonomial_to_idx"]
    if not isinstance(m, Mat):
        return [(f"{what}: a matrix", False)]
    out = [(f"{what}: one row, a column for each variable", AND(EQ(m.shape[0], 1), EQ(m.shape[1], P["n_columns"])))]
    q = var(Mon, "w")
    if len(m.blocks) != 1 or len(m.blocks[0].triplets) != 1 or [v.sort() for v in m.blocks[0].vars] != [Mon]:
        return out + [(f"{what}: nothing is there when nothing is given", forall(lambda q: NOT(d.dom(q))) if not m.blocks else False)]
    c, ((row, col, val),) = m.blocks[0].at([q])
    if isinstance(row, tuple):
        return out + [(f"{what}: in one row", False)]
    out.append((f"{what}: each given value once and nothing else", z3.ForAll([q], zb(IFF(c, d.dom(q))))))
    out.append((f"{what}: in the column of its moment", z3.ForAll([q], zb(IMP(c, AND(EQ(row, 0), EQ(col, ix.val(q))))))))
    out.append((f"{what}: the value", z3.ForAll([q], zb(IMP(c, EQ(real(val), real(d.val(q))))))))
    return out


def dict_arg(eng, st, P):
    return [eng.alloc(st, dct(eng, "given"))]


def unknown_key(eng, pr, po, ctx):
    d = pr.obj(ctx["args"][0])
    return [("a moment outside of the program was given", EX(Mon, lambda q: AND(d.dom(q), NOT(pr["compmonomial_to_idx"].dom(q)))))]


reg(name="InflationLP._mon_dict_to_coo_vec", module=LP, fn="InflationLP._mon_dict_to_coo_vec", stubs=TOLP, setup=setup_self(mat_self, mat_inv, dict_arg),
    ensures=lambda eng, pr, po, v, ctx: row_vector(eng, pr, "the matrix", v, pr.obj(ctx["args"][0])), raises={"KeyError": unknown_key}, modifies=set())


def semi_ens(eng, pr, po, v, ctx):
    return semi_rows(eng, pr, po, "proportionalities", v)


def semi_rows(eng, P, po, what, m):
    ix, s = P["compmonomial_to_idx"], P["semiknown_moments"]
    if not isinstance(m, Mat):
        return [(f"{what}: a matrix", False)]
    s2, n = count(eng, po.st.copy(), s)
    s3, w = count(eng, s2.copy(), ix)
    q = var(Mon, "w")
    out = [(f"{what}: a row for each", EQ(m.shape[0], n)), (f"{what}: a column for each variable", EQ(m.shape[1], w))]
    if not m.blocks:
        return out + [(f"{what}: none when there are none", forall(lambda q: NOT(s.dom(q))))]
    if len(m.blocks) != 1 or len(m.blocks[0].triplets) != 2 or [v.sort() for v in m.blocks[0].vars] != [Mon]:
        return out + [(f"{what}: two entries each", False)]
    c, ts = m.blocks[0].at([q])
    own = all(isinstance(r, tuple) and r[0] == "rank" and r[1] is s for r, _, _ in ts)
    out.append((f"{what}: each has its own row", own))
    out.append((f"{what}: exactly the semiknown moments", z3.ForAll([q], zb(IFF(c, s.dom(q))))))
    t = [(x, real(v)) for _, x, v in ts]
    coeff, other = s.val(q)
    want = [(ix.val(q), z3.RealVal(1)), (ix.val(other), -real(coeff))]
    match = lambda a, b: AND(EQ(a[0][0], b[0][0]), EQ(a[0][1], b[0][1]), EQ(a[1][0], b[1][0]), EQ(a[1][1], b[1][1]))
    out.append((f"{what}: one at the moment, minus the coefficient at the other", z3.ForAll([q], zb(IMP(c, OR(match(t, want), match(t[::-1], want)))))))
    return out


def semi_inside(eng, st, P):
    s, ix = P["semiknown_moments"], P["compmonomial_to_idx"]
    return [("proportionalities relate moments of the program", forall(lambda q: IMP(s.dom(q), AND(ix.dom(q), ix.dom(s.val(q)[1])))))]


reg(name="InflationLP.sparse_semiknown", module=LP, fn="InflationLP.sparse_semiknown", stubs=TOLP, setup=setup_self(mat_self, mat_inv, extra=semi_inside), ensures=semi_ens, modifies=set())


# -------------------------------------------- equalities and inequalities of the user
def given_rows(eng, nm):
    """a list of n dictionaries"""
    i = var(I, "i")
    n = eng.fresh(nm + "_n", I)
    dom, val = fn(nm + "_dom", I, Mon, B), fn(nm + "_val", I, Mon, R)
    d = DictO(Mon, lambda q: dom(i, q), lambda q: val(i, q))
    return LstO((Gen([i], z3.And(0 <= i, i < n), d, "index"),)), n, dom, val


def rows_self(attr):
    def make(eng, st):
        r = mat_self(eng, st)
        a = dict(st.heap[r.a].attrs)
        o, n, dom, val = given_rows(eng, "given")
        a[attr] = eng.alloc(st, o)
        eng.rows_given = (n, dom, val)
        st.heap[r.a] = RecO(st.heap[r.a].cls, a)
        return r
    return make


def rows_ens(eng, pr, po, v, ctx):
    """the i-th row carries each coefficient of the i-th dictionary in the column of its moment"""
    n, dom, val = eng.rows_given
    ix = pr["compmonomial_to_idx"]
    if not isinstance(v, Mat):
        return [("a matrix is returned", False)]
    out = [("a row for each that is stated, a column for each variable", AND(EQ(v.shape[0], n), EQ(v.shape[1], pr["n_columns"])))]
    i, q = var(I, "r"), var(Mon, "w")
    given = z3.And(0 <= i, i < n, dom(i, q))
    if not v.blocks:
        return out + [("nothing is there when nothing is stated", z3.ForAll([i, q], z3.Not(given)))]
    if len(v.blocks) != 1 or [x.sort() for x in v.blocks[0].vars] != [I, Mon] or len(v.blocks[0].triplets) != 1:
        return out + [("each coefficient once", False)]
    c, ((row, col, w),) = v.blocks[0].at([i, q])
    out.append(("each coefficient once and nothing else", z3.ForAll([i, q], zb(IFF(c, given)))))
    out.append(("in the row of its constraint", z3.ForAll([i, q], zb(IMP(c, EQ(row, i))))))
    out.append(("in the column of its moment", z3.ForAll([i, q], zb(IMP(c, EQ(col, ix.val(q)))))))
    out.append(("the coefficient", z3.ForAll([i, q], zb(IMP(c, EQ(real(w), val(i, q)))))))
    return out


def rows_outside(eng, pr, po, ctx):
    n, dom, val = eng.rows_given
    return [("a moment outside of the program was given", EX(I, lambda i: EX(Mon, lambda q: AND(0 <= i, i < n, dom(i, q), NOT(pr["compmonomial_to_idx"].dom(q))))))]


for which in ("equalities", "inequalities"):
    reg(name=f"InflationLP.sparse_extra_{which}", module=LP, fn=f"InflationLP.sparse_extra_{which}", stubs=TOLP,
        setup=setup_self(rows_self(f"extra_{which}"), lambda P: mat_inv(P), extra=lambda eng, st, P: [("there is a number of them", eng.rows_given[0] >= 0)]),
        ensures=rows_ens, raises={"KeyError": rows_outside}, modifies=set())


# ---------------------------------------------------------- expand_sparse_vec
def a_row(eng, st):
    """a one-row matrix with an entry for each key of d, in some order"""
    d = dct(eng, "entry")
    col = eng.fresh("column", I, Mon)
    k = var(Mon, "k")
    g = Gen([k], d.dom(k), k, ("listed", -1, eng.pin(d)))
    return d, col, Mat((1, eng.fresh("n_columns", I)), [Block([k], d.dom(k), [(0, col(k), d.val(k))])], None, Vec(g, [col(k)]), Vec(g, [d.val(k)]))


def expand_setup(style):
    def setup(eng, st):
        d, col, m = a_row(eng, st)
        return {"args": [m] + ([style] if style else []), "of": (d, col, m)}
    return setup


def expand_ens(style):
    def ens(eng, pr, po, v, ctx):
        d, col, m = ctx["of"]
        st, n = count(eng, po.st.copy(), d)
        if not isinstance(v, Mat):
            return [("a matrix is returned", False)]
        out = [("a row for each entry, the same columns", AND(EQ(v.shape[0], n), EQ(v.shape[1], m.shape[1])))]
        q = var(Mon, "w")
        if len(v.blocks) != 1 or [x.sort() for x in v.blocks[0].vars] != [Mon]:
            return out + [("the entries are those of the row", False)]
        c, ts = v.blocks[0].at([q])
        out.append(("each entry has a row of its own", all(isinstance(r, tuple) and r[0] == "rank" and r[1] is d for r, _, _ in ts)))
        out.append(("every entry, and nothing else", z3.ForAll([q], zb(IFF(c, d.dom(q))))))
        one = {"eq": 1, "lb": 1, "ub": -1}[style or "eq"]
        want = [(col(q), z3.RealVal(one))]
        if style in ("lb", "ub"):
            # x - a >= 0, a - x >= 0
            want.append((z3.IntVal(0), -one * d.val(q)))
        got = [(x, real(w)) for _, x, w in ts]
        if len(got) != len(want):
            return out + [("a row says what the entry says", False)]
        import itertools
        eqv = lambda a: AND(*[AND(EQ(x[0], y[0]), EQ(x[1], y[1])) for x, y in zip(a, want)])
        out.append(("a row says what the entry says", z3.ForAll([q], zb(IMP(c, OR(*[eqv(a) for a in itertools.permutations(got)]))))))
        return out
    return ens


for style in (None, "eq", "lb", "ub"):
    reg(name=f"expand_sparse_vec[{style or 'default'}]", module=UTILS, fn="expand_sparse_vec", stubs=LIB, setup=expand_setup(style), ensures=expand_ens(style), modifies=set())


# ------------------------------------------------------ the program as it is handed over
def matrices_ens(sep):
    def ens(eng, pr, po, v, ctx):
        r = po.obj(v) if isinstance(v, Ref) else None
        need = {"objective", "known_vars", "equalities", "inequalities", "variables"} | ({"lower_bounds", "upper_bounds"} if sep else set())
        if not isinstance(r, CDict) or set(r.items) != need:
            return [("exactly the arguments of the solver are given", False)]
        g = r.items
        out = [("the program has been generated", pr["_lp_has_been_generated"]),
               ("nothing outside of the program is known", forall(lambda q: IMP(pr["known_moments"].dom(q), contains(pr["monomials"], q)))),
               ("the variables are those of the program", EQ(g["variables"], pr["monomial_names"]) if z3.is_expr(g["variables"]) else False)]
        out += row_vector(eng, pr, "objective", g["objective"], pr["objective"])
        out += row_vector(eng, pr, "known values", g["known_vars"], pr["known_moments"])
        e = g["equalities"]
        if not (isinstance(e, Stack) and len(e.parts) == 2):
            return out + [("equalities: the derived and stated ones, and the proportionalities", False)]
        given = [x for x in e.parts if z3.is_expr(x)]
        semi = [x for x in e.parts if isinstance(x, Mat)]
        if len(given) != 1 or len(semi) != 1:
            return out + [("equalities: the derived and stated ones, and the proportionalities", False)]
        out.append(("equalities: the derived and stated ones", EQ(given[0], pr["sparse_equalities"])))
        out += semi_rows(eng, pr, po, "proportionalities", semi[0])
        if sep:
            out.append(("inequalities: the derived and stated ones", EQ(g["inequalities"], pr["sparse_inequalities"]) if z3.is_expr(g["inequalities"]) else False))
            out += row_vector(eng, pr, "lower bounds", g["lower_bounds"], pr["moment_lowerbounds"])
            out += row_vector(eng, pr, "upper bounds", g["upper_bounds"], pr["moment_upperbounds"])
        return out
    return ens


def outside(eng, pr, po, ctx):
    ix = pr["compmonomial_to_idx"]
    return [("a moment outside of the program has a bound or a coefficient",
             EX(Mon, lambda q: AND(NOT(ix.dom(q)), OR(*[pr[a].dom(q) for a in ("objective", "moment_lowerbounds", "moment_upperbounds", "known_moments")]))))]


def lp_not_generated(eng, pr, po, ctx):
    return [("the program has not been generated", NOT(pr["_lp_has_been_generated"]))]


def stray_known(eng, pr, po, ctx):
    return [("something outside of the program is known", EX(Mon, lambda q: AND(pr["known_moments"].dom(q), NOT(contains(pr["monomials"], q)))))]


reg(name="InflationLP._prepare_solver_matrices", module=LP, fn="InflationLP._prepare_solver_matrices", stubs=TOLP, setup=setup_self(mat_self, mat_inv, extra=semi_inside),
    ensures=matrices_ens(True), raises={"KeyError": outside, "Exception": lp_not_generated, "AssertionError": stray_known}, modifies=set())


# -------------------------------------------------------------- partsextractor
class Getter(Native):
    """operator.itemgetter: of one key the value, of several the tuple of values"""
    def __init__(self, keys):
        self.keys = keys

    def call(self, eng, st, args, kw):
        if len(args) != 1 or kw:
            raise Unsupported("itemgetter")
        if len(self.keys) != 1:
            raise Unsupported("itemgetter")
        k = self.keys[0]
        if not isinstance(k, Star):
            return eng.item(st, args[0], k)
        d = st.heap[args[0].a] if isinstance(args[0], Ref) else None
        v = as_vec(eng, st, k.v)
        if not isinstance(d, DictO) or not isinstance(v, Vec) or len(v.elems) != 1:
            raise Unsupported("itemgetter")
        st, n = v.length(eng, st)[0]
        out = []
        for s, none in eng.fork(st, n == 0):
            if none:
                out.append((s, Exc("TypeError")))
                continue
            for s1, t in eng.fork(s, z3.ForAll(v.gen.vars, z3.Implies(zb(v.gen.cond), zb(d.dom(v.elems[0]))))):
                if not t:
                    out.append((s1, Exc("KeyError")))
                    continue
                for s2, one in eng.fork(s1, n == 1):
                    if not one:
                        out.append((s2, Vec(v.gen, [d.val(v.elems[0])])))
                        continue
                    w = [eng.fresh("only", x.sort()) for x in v.gen.vars]
                    ps = list(zip(v.gen.vars, w))
                    s2 = s2.assume(zb(sub(v.gen.cond, ps)))
                    out.append((s2, sub(d.val(v.elems[0]), ps)))
        return out


def ITEMGETTER(eng, st, args, kw):
    if kw or not args:
        raise Unsupported("itemgetter")
    return [(st, Getter(list(args)))]


def parts_setup(eng, st):
    keys = SetO(Mon, (lambda f: lambda q: f(q))(eng.fresh("listed", B, Mon)))
    k = var(Mon, "k")
    at = eng.fresh("entry", Mon, Mon)
    g = Gen([k], keys.mem(k), at(k), ("listed", -1, eng.pin(keys)))
    d = eng.alloc(st, dct(eng, "thing"))
    ix = eng.alloc(st, LstO([g]))
    return {"args": [d, ix], "inputs": {"thing_to_take_parts_of": d, "indices": ix}, "of": (keys, at)}


def parts_ens(eng, pr, po, v, ctx):
    d, (keys, at) = pr.obj(ctx["args"][0]), ctx["of"]
    there = ("all keys are there", forall(lambda q: IMP(keys.mem(q), d.dom(at(q)))))
    if isinstance(v, tuple):
        if len(v) == 0:
            return [there, ("nothing is returned only for no keys", forall(lambda q: NOT(keys.mem(q))))]
        if len(v) == 1 and isnum(v[0]):
            return [there, ("one value only for one key", AND(EX(Mon, keys.mem), FA([Mon, Mon], lambda p, q: IMP(AND(keys.mem(p), keys.mem(q)), p == q)))),
                    ("the value of the key", forall(lambda q: IMP(keys.mem(q), EQ(real(v[0]), d.val(at(q))))))]
    if isinstance(v, Vec) and len(v.elems) == 1 and v.gen.seq[2] == id(keys):
        q = var(Mon, "w")
        ps = [(v.gen.vars[0], q)]
        return [there, ("one value for each key, in their order", z3.ForAll([q], zb(IFF(sub(v.gen.cond, ps), keys.mem(q))))),
                ("the value of the key", z3.ForAll([q], zb(IMP(keys.mem(q), EQ(real(sub(v.elems[0], ps)), d.val(at(q)))))))]
    return [("the values of the keys in their order", False)]


def parts_missing(eng, pr, po, ctx):
    d, (keys, at) = pr.obj(ctx["args"][0]), ctx["of"]
    return [("a key is missing", EX(Mon, lambda q: AND(keys.mem(q), NOT(d.dom(at(q))))))]


reg(name="partsextractor[several]", module=UTILS, fn="partsextractor", stubs={"itemgetter": ITEMGETTER}, setup=parts_setup, ensures=parts_ens, raises={"KeyError": parts_missing}, modifies=set())
PATTRS = dict(ATTRS)
PATTRS[("Mon", "hasattr")] = lambda x, nm: False


def part_setup(eng, st):
    d = eng.alloc(st, dct(eng, "thing"))
    return {"args": [d, eng.fresh("key", Mon)], "inputs": {"thing_to_take_parts_of": d}}


reg(name="partsextractor[one]", module=UTILS, fn="partsextractor", attrs=PATTRS, stubs={"itemgetter": ITEMGETTER}, setup=part_setup,
    ensures=lambda eng, pr, po, v, ctx: [("the key is there", pr.obj(ctx["args"][0]).dom(ctx["args"][1])), ("its value", EQ(real(v), pr.obj(ctx["args"][0]).val(ctx["args"][1])) if isnum(v) else False)],
    raises={"KeyError": lambda eng, pr, po, ctx: [("the key is missing", NOT(pr.obj(ctx["args"][0]).dom(ctx["args"][1])))]}, modifies=set())
