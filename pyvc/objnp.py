"""One-dimensional arrays and sparse matrices for the object engine.

An array is a length and a function from positions to values; a sparse matrix
three arrays of one length (row, column, value of each triplet) and a shape. Both
are snapshots in the heap, so that aliases see assignments. A slice is a view:
assigning into one is outside the fragment.
"""
import ast

from .objvc import *
from .objvc import Bn, Bd, Native, HeapNative, Star, LstO, isnum, real, zb, strconst, TEXT

Key = Sort("BoundKey")


def it_(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and z3.is_int(v)


def val(v):
    """an entry of an array as a term"""
    if isinstance(v, Bn):
        return strconst(v.name.split(".")[-1], Key)
    if isinstance(v, bool):
        raise Unsupported("array of Booleans")
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, float):
        return z3.RealVal(str(v))
    if z3.is_expr(v):
        return v
    raise Unsupported(f"array entry of type {type(v).__name__}")


def alike(xs):
    """terms of one sort"""
    ss = {x.sort() for x in xs}
    if len(ss) <= 1:
        return xs
    if all(z3.is_arith(x) for x in xs):
        return [z3.ToReal(x) if z3.is_int(x) else x for x in xs]
    raise Unsupported("array of unlike entries")


def dim(eng, st, x):
    """an extent, as one of the terms that name extents where it provably is one"""
    if isinstance(x, int) or z3.is_const(x):
        return x
    x = z3.simplify(x)
    pc = ground(st.pcs())
    for t in getattr(eng, "dims", ()):
        if eng.proves(pc, zb(EQ(x, t)), 1500):
            return t
    return x


def ground(ps):
    """the conjuncts without quantifiers"""
    out, todo = [], list(ps)
    while todo:
        p = todo.pop()
        if z3.is_and(p):
            todo += p.children()
        elif not quantified(p):
            out.append(p)
    return out


def quantified(p):
    todo, seen = [p], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        todo += x.children()
    return False


def simp(x):
    return z3.simplify(x) if z3.is_expr(x) else x


class Arr(HeapNative):
    """n entries, get(i) for 0 <= i < n; `lst`: a list and not a numpy array;
    `view`: a part of another array"""
    def __init__(self, n, get, lst=False, view=False):
        self.n, self.get, self.lst, self.view = n, get, lst, view
        self.where = None

    @property
    def sort(self):
        return self.get(z3.IntVal(0)).sort()

    def isinstance(self, nm):
        return nm == ("list" if self.lst else "ndarray")

    def inside(self, i):
        return AND(it_(i) >= 0, it_(i) < self.n)

    def length(self, eng, st, ref):
        return [(st, self.n)]

    def iterate(self, eng, st, ref):
        k = var(I, "i")
        return Gen([k], self.inside(k), self.get(k), "index")

    def attribute(self, eng, st, ref, attr):
        if attr in ("size",):
            return [(st, self.n)]
        if attr == "shape":
            return [(st, (self.n,))]
        if attr in ("flat",):
            return [(st, ref)]
        return [(st, Bd(ref, attr))]

    def method(self, eng, st, ref, attr, args, kw):
        if attr == "extend" and self.lst and len(args) == 1:
            o = as_arr(eng, st, args[0])
            return [(update(st, ref, cat([self, o], True)), None)]
        if attr in ("ravel", "flatten", "copy", "astype", "tolist") and not (attr in ("ravel", "flatten") and args):
            return new(eng, st, Arr(self.n, self.get, self.lst or attr == "tolist"))
        raise Unsupported(f"{attr} of an array")

    def norm(self, eng, st, i):
        if isinstance(i, int) and i < 0:
            i = self.n + i
        if not eng.proves(st.pcs(), zb(self.inside(i)), 2000):
            raise Unsupported("an index that may be out of range")
        return it_(i)

    def cut(self, eng, st, k):
        """(start, length) of a slice"""
        lo, hi, step = k[1:]
        if step is not None:
            raise Unsupported("slice with a step")
        ends = []
        for x, d in ((lo, 0), (hi, self.n)):
            if x is None:
                ends.append(d)
                continue
            if not isint(x):
                raise Unsupported("slice")
            if isinstance(x, int) and x < 0:
                x = self.n + x
            if not eng.proves(st.pcs(), zb(AND(it_(x) >= 0, it_(x) <= self.n)), 3000):
                raise Unsupported("a slice that may be out of range")
            ends.append(x)
        a, b = ends
        if not eng.proves(st.pcs(), zb(it_(a) <= b), 3000):
            raise Unsupported("an inverted slice")
        return a, simp(b - a)

    def subscript(self, eng, st, ref, k):
        if isinstance(k, tuple) and k and k[0] == "slice":
            a, n = self.cut(eng, st, k)
            return new(eng, st, Arr(n, lambda i: self.get(i + a), self.lst, not self.lst))
        if isint(k):
            return [(st, self.get(self.norm(eng, st, k)))]
        x = st.heap[k.a] if isinstance(k, Ref) else None
        if isinstance(x, Arr) and x.sort == I and not self.lst:
            i = var(I, "i")
            if not eng.proves(st.pcs(), z3.ForAll([i], z3.Implies(zb(x.inside(i)), zb(self.inside(x.get(i))))), 3000):
                raise Unsupported("indices that may be out of range")
            return new(eng, st, Arr(x.n, lambda i: self.get(x.get(i))))
        raise Unsupported("subscript of an array")

    def put(self, eng, st, ref, k, w):
        if self.view:
            raise Unsupported("assignment into a part of an array")
        if isinstance(k, tuple) and k and k[0] == "slice":
            a, n = self.cut(eng, st, k)
            if isnum(w) or isinstance(w, Bn):
                f = lambda i: val(w)
            else:
                o = as_arr(eng, st, w)
                if not eng.proves(st.pcs(), zb(EQ(o.n, n)), 3000):
                    raise Unsupported("arrays of unlike length")
                f = lambda i: o.get(i - a)
            m = lambda i: AND(i >= a, i < a + n)
        elif isint(k):
            j = self.norm(eng, st, k)
            f, m = (lambda i: val(w)), (lambda i: i == j)
        else:
            x = st.heap[k.a] if isinstance(k, Ref) else k
            if isinstance(x, Some):
                if not (isnum(w) or isinstance(w, Bn)) or self.lst:
                    raise Unsupported("assignment to a set of positions")
                m, f = x.mem, lambda i: val(w)
                i = var(I, "i")
                if not eng.proves(st.pcs(), z3.ForAll([i], z3.Implies(zb(m(i)), zb(self.inside(i)))), 3000):
                    raise Unsupported("indices that may be out of range")
            elif isinstance(x, Arr) and not self.lst:
                st, m, pos = position(eng, st, x)
                i = var(I, "i")
                if not eng.proves(st.pcs(), z3.ForAll([i], z3.Implies(zb(x.inside(i)), zb(self.inside(x.get(i))))), 3000):
                    raise Unsupported("indices that may be out of range")
                if isnum(w) or isinstance(w, Bn):
                    f = lambda i: val(w)
                else:
                    o = as_arr(eng, st, w)
                    if not eng.proves(st.pcs(), zb(EQ(o.n, x.n)), 3000):
                        raise Unsupported("arrays of unlike length")
                    f = lambda i: o.get(pos(i))
            else:
                raise Unsupported("assignment into an array")
        old = self.get

        def g(i):
            a_, b_ = alike([f(i), old(i)])
            return IT(m(i), a_, b_)
        return [(update(st, ref, Arr(self.n, g, self.lst)), None)]

    def inplace(self, eng, st, ref, op, b):
        if self.view or self.lst:
            raise Unsupported("in-place arithmetic on a part of an array")
        out = []
        import ast as A
        for s, r in eng.binop(st, getattr(A, op)(), ref, b):
            o = s.heap[r.a]
            out.append((update(s, ref, Arr(o.n, o.get)), ref))
        return out

    def unary(self, eng, st, ref, op):
        if op == "USub" and not self.lst:
            return new(eng, st, Arr(self.n, lambda i: -self.get(i)))
        raise Unsupported(op)


class Some:
    """a set of positions"""
    def __init__(self, mem):
        self.mem = mem


class SomeN(Some, HeapNative):
    pass


def position(eng, st, x):
    """where a value stands in an array whose entries are distinct: (state, member, position)"""
    if x.where is None:
        i, j = var(I, "i"), var(I, "j")
        if not eng.proves(st.pcs(), z3.ForAll([i, j], z3.Implies(zb(AND(x.inside(i), x.inside(j), x.get(i) == x.get(j))), i == j)), 4000):
            raise Unsupported("an array of indices that may repeat")
        x.where = eng.fresh("position", I, I)
    p = x.where
    i = var(I, "i")
    st = st.copy()
    st.pc.append((z3.ForAll([i], z3.Implies(zb(x.inside(i)), p(x.get(i)) == i)), False))
    return st, (lambda v: AND(x.inside(p(v)), x.get(p(v)) == v)), p


def update(st, ref, o):
    st = st.copy()
    st.heap[ref.a] = o
    return st


def new(eng, st, o):
    st = st.copy()
    return [(st, eng.alloc(st, o))]


def as_arr(eng, st, v):
    if isinstance(v, Ref):
        o = st.heap[v.a]
        if isinstance(o, Arr):
            return o
        if isinstance(o, LstO) and all(isinstance(p, tuple) for p in o.parts):
            return listed([p[1] for p in o.parts])
    if isinstance(v, tuple):
        return listed(list(v))
    raise Unsupported("array")


def listed(xs, lst=True):
    xs = alike([val(x) for x in xs]) if xs else []

    def g(i):
        if not xs:
            return z3.IntVal(0)
        r = xs[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = z3.If(i == k, xs[k], r)
        return r
    return Arr(len(xs), g, lst)


def cat(xs, lst=False):
    xs = [x for x in xs if not (isinstance(x.n, int) and x.n == 0)] or xs[:1]

    def g(i):
        vs, start, outs = [], 0, []
        for x in xs:
            outs.append((start, x.get(i - start)))
            start = simp(start + x.n)
        ts = alike([t for _, t in outs])
        r = ts[-1]
        for k in range(len(xs) - 2, -1, -1):
            r = IT(zb(i < outs[k + 1][0]), ts[k], r)
        return r
    n = 0
    for x in xs:
        n = simp(n + x.n)
    return Arr(n, g, lst)


class Sp(HeapNative):
    """a sparse matrix: shape and the references of its three arrays"""
    def __init__(self, shape, row, col, data, fmt="coo"):
        self.shape, self.row, self.col, self.data, self.fmt = shape, row, col, data, fmt

    def isinstance(self, nm):
        return nm == "coo_array" if self.fmt == "coo" else False

    def nnz(self, st):
        return st.heap[self.data.a].n

    def attribute(self, eng, st, ref, attr):
        if attr == "shape":
            return [(st, self.shape)]
        if attr == "nnz":
            return [(st, self.nnz(st))]
        if self.fmt == "coo" and attr in ("row", "col", "data"):
            return [(st, getattr(self, attr))]
        if self.fmt != "coo" and attr in ("indptr", "indices", "data"):
            return [(st, Piece(attr, ref))]
        return [(st, Bd(ref, attr))]

    def setattr(self, eng, st, ref, attr, w):
        if self.fmt != "coo" or attr not in ("row", "col", "data"):
            raise Unsupported(f"assignment to {attr} of a matrix")
        o = as_arr(eng, st, w)
        if not eng.proves(st.pcs(), zb(EQ(o.n, self.nnz(st))), 3000):
            raise Unsupported("arrays of unlike length")
        st = st.copy()
        r = eng.alloc(st, Arr(o.n, o.get))
        st.heap[ref.a] = Sp(self.shape, *[r if a == attr else getattr(self, a) for a in ("row", "col", "data")], self.fmt)
        return [(st, None)]

    def method(self, eng, st, ref, attr, args, kw):
        if attr == "resize" and not kw:
            s = args[0] if len(args) == 1 else tuple(args)
            if not (isinstance(s, tuple) and len(s) == 2 and all(isint(x) for x in s)):
                raise Unsupported("resize")
            k = var(I, "k")
            row, col = st.heap[self.row.a], st.heap[self.col.a]
            if not eng.proves(st.pcs(), z3.ForAll([k], z3.Implies(zb(row.inside(k)), zb(AND(row.get(k) < s[0], col.get(k) < s[1])))), 3000):
                raise Unsupported("a resize that may drop entries")
            s = tuple(dim(eng, st, x) for x in s)
            return [(update(st, ref, Sp(s, self.row, self.col, self.data, self.fmt)), None)]
        if attr in ("tocsr", "tocsc", "tocoo", "asformat"):
            f = attr[2:] if attr != "asformat" else args[0]
            if f not in ("csr", "csc", "coo"):
                raise Unsupported(f"format {f}")
            if f == self.fmt:
                return [(st, ref)]
            return new(eng, st, Sp(self.shape, self.row, self.col, self.data, f))
        if attr == "copy":
            st = st.copy()
            rs = [eng.alloc(st, Arr(st.heap[r.a].n, st.heap[r.a].get)) for r in (self.row, self.col, self.data)]
            return [(st, eng.alloc(st, Sp(self.shape, *rs, self.fmt)))]
        if attr == "toarray" and not args and not kw:
            return [(st, Dense(ref))]
        raise Unsupported(f"{attr} of a matrix")


class Piece(Native):
    """a part of the compressed form of a matrix"""
    def __init__(self, what, ref, cut=None):
        self.what, self.ref, self.cut = what, ref, cut

    def subscript(self, eng, st, k):
        if self.what == "indptr" and isinstance(k, tuple) and k[0] == "slice" and self.cut is None:
            if k[1:] in ((None, -1, None), (0, -1, None)):
                return [(st, Piece(self.what, self.ref, "start"))]
            if k[1:] == (1, None, None):
                return [(st, Piece(self.what, self.ref, "end"))]
        raise Unsupported("subscript")


class Dense(Native):
    """a one-row matrix written out"""
    def __init__(self, ref):
        self.ref = ref

    def attribute(self, eng, st, attr):
        if attr == "ravel":
            return [(st, DenseRow(self.ref))]
        raise Unsupported(attr)


class DenseRow(Native):
    def __init__(self, ref):
        self.ref = ref

    def call(self, eng, st, args, kw):
        if args or kw:
            raise Unsupported("ravel")
        m = st.heap[self.ref.a]
        row, col, data = [st.heap[r.a] for r in (m.row, m.col, m.data)]
        if not eng.proves(st.pcs(), zb(EQ(m.shape[0], 1)), 3000):
            raise Unsupported("a matrix of several rows written out")
        st, mem, pos = position(eng, st, col)
        return new(eng, st, Arr(m.shape[1], lambda i: IT(mem(i), real(data.get(pos(i))), z3.RealVal(0))))


# ------------------------------------------------------------------- library
def COO(eng, st, args, kw):
    kw = dict(kw)
    kw.pop("dtype", None)
    shape = kw.pop("shape", None)
    if kw or len(args) != 1 or not isinstance(args[0], tuple):
        raise Unsupported("coo_array")
    st = st.copy()
    if shape is None:
        s = args[0]
        if not (len(s) == 2 and all(isint(x) for x in s)):
            raise Unsupported("coo_array")
        rs = [eng.alloc(st, Arr(0, lambda i, z=z: z)) for z in (z3.IntVal(0), z3.IntVal(0), z3.RealVal(0))]
        return [(st, eng.alloc(st, Sp(s, *rs)))]
    data, (row, col) = args[0]
    xs = [as_arr(eng, st, x) for x in (row, col, data)]
    if not all(eng.proves(st.pcs(), zb(EQ(x.n, xs[0].n)), 3000) for x in xs[1:]):
        raise Unsupported("arrays of unlike length")
    rs = [x if isinstance(x, Ref) and not xs[i].lst and not xs[i].view else eng.alloc(st, Arr(xs[i].n, xs[i].get, False, xs[i].view)) for i, x in enumerate((row, col, data))]
    return [(st, eng.alloc(st, Sp(tuple(shape), *rs)))]


def nonneg(eng, st, n):
    if isinstance(n, int):
        return n >= 0
    return eng.proves(st.pcs(), n >= 0, 2000)


def count_arg(eng, st, x):
    if isinstance(x, tuple) and len(x) == 1:
        x = x[0]
    if not isint(x) or not nonneg(eng, st, x):
        raise Unsupported("length")
    return x


def fill(v):
    def f(eng, st, args, kw):
        if len(args) != 1 or set(kw) - {"dtype"}:
            raise Unsupported("array")
        return new(eng, st, Arr(count_arg(eng, st, args[0]), lambda i: z3.RealVal(v)))
    return f


def ARANGE(eng, st, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("arange")
    return new(eng, st, Arr(count_arg(eng, st, args[0]), lambda i: it_(i)))


def RANGE(eng, st, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("range")
    return new(eng, st, Arr(count_arg(eng, st, args[0]), lambda i: it_(i), True))


def REPEAT(eng, st, args, kw):
    if len(args) != 2 or kw:
        raise Unsupported("repeat")
    a, n = args[0], count_arg(eng, st, args[1])
    if isnum(a) or isinstance(a, Bn):
        return new(eng, st, Arr(n, lambda i: val(a)))
    o = as_arr(eng, st, a)
    if not isinstance(o.n, int):
        raise Unsupported("repeat")
    return new(eng, st, cat([Arr(n, lambda i, k=k: o.get(z3.IntVal(k))) for k in range(o.n)]))


def TILE(eng, st, args, kw):
    if len(args) != 2 or kw or not isinstance(args[1], int) or args[1] < 1:
        raise Unsupported("tile")
    o = as_arr(eng, st, args[0])
    return new(eng, st, cat([o] * args[1]))


def BROADCAST(eng, st, args, kw):
    if len(args) != 2 or kw or not (isnum(args[0]) or isinstance(args[0], Bn)):
        raise Unsupported("broadcast_to")
    v = args[0]
    return new(eng, st, Arr(count_arg(eng, st, args[1]), lambda i: val(v), False, True))


def HSTACK(eng, st, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("hstack")
    it = eng.iterate(st, args[0])
    if not isinstance(it, list):
        raise Unsupported("hstack")
    return new(eng, st, cat([as_arr(eng, st, x) for x in it]))


def ASARRAY(eng, st, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("asarray")
    o = as_arr(eng, st, args[0])
    if isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], Arr) and not o.lst:
        return [(st, args[0])]
    return new(eng, st, Arr(o.n, o.get))


def SETOP(which):
    def f(eng, st, args, kw):
        if len(args) != 2 or kw:
            raise Unsupported(which)
        a, b = [as_arr(eng, st, x) for x in args]
        st, ma, _ = position(eng, st, a)
        st, mb, _ = position(eng, st, b)
        return new(eng, st, SomeN((lambda i: AND(ma(i), mb(i))) if which == "intersect1d" else (lambda i: AND(ma(i), NOT(mb(i))))))
    return f


def LIST(eng, st, args, kw):
    if len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], Arr):
        o = st.heap[args[0].a]
        return new(eng, st, Arr(o.n, o.get, True))
    return eng.default(st, "list", args, kw)


def BINOP(eng, st, op, a, b):
    """list * n, list + list; arrays elementwise"""
    def what(x):
        if isinstance(x, Ref):
            o = st.heap[x.a]
            if isinstance(o, Arr):
                return o
            if isinstance(o, LstO) and o.parts and all(isinstance(p, tuple) and (isnum(p[1]) or isinstance(p[1], Bn)) for p in o.parts):
                return listed([p[1] for p in o.parts])
        return None
    x, y = what(a), what(b)
    if x is None and y is None:
        return None
    if op == "Mult" and (x is not None and x.lst and isint(b) or y is not None and y.lst and isint(a)):
        o, n = (x, b) if x is not None else (y, a)
        if not isinstance(o.n, int):
            raise Unsupported("repeating a list")
        if o.n != 1:
            raise Unsupported("repeating a list of several")
        # a negative number of times is none
        m = n if nonneg(eng, st, n) else z3.If(it_(n) >= 0, n, 0)
        return new(eng, st, Arr(m, lambda i: o.get(z3.IntVal(0)), True))
    if op == "Add" and x is not None and y is not None and x.lst and y.lst:
        return new(eng, st, cat([x, y], True))
    if (x is None or not x.lst) and (y is None or not y.lst):
        if x is not None and y is not None and not eng.proves(st.pcs(), zb(EQ(x.n, y.n)), 3000):
            raise Unsupported("arrays of unlike length")
        if x is None and not isnum(a) or y is None and not isnum(b):
            raise Unsupported("arithmetic on arrays")
        node = {"Add": ast.Add, "Sub": ast.Sub, "Mult": ast.Mult}.get(op)
        if node is None:
            raise Unsupported("arithmetic on arrays")
        f = {"Add": lambda p, q: p + q, "Sub": lambda p, q: p - q, "Mult": lambda p, q: p * q}[op]
        return new(eng, st, Arr((x or y).n, lambda i: f(*alike([x.get(i) if x is not None else val(a), y.get(i) if y is not None else val(b)]))))
    raise Unsupported("arithmetic on lists")


LIB = {"coo_array": COO, "zeros": fill(0), "ones": fill(1), "arange": ARANGE, "range": RANGE, "repeat": REPEAT, "tile": TILE, "broadcast_to": BROADCAST,
       "hstack": HSTACK, "concatenate": HSTACK, "asarray": ASARRAY, "setdiff1d": SETOP("setdiff1d"), "intersect1d": SETOP("intersect1d"), "list": LIST, "binop": BINOP}


# -------------------------------------------------------------------- series
class Ser(HeapNative):
    """an array with one entry per element of a finite family, in the family's order"""
    def __init__(self, vars, cond, elem, seq):
        self.vars, self.cond, self.elem, self.seq = list(vars), cond, elem, seq

    def isinstance(self, nm):
        return nm == "ndarray"

    def like(self, elem, vars=None):
        if vars is not None and vars is not self.vars:
            elem = sub(elem, list(zip(vars, self.vars)))
        return Ser(self.vars, self.cond, elem, self.seq)

    def to(self, o, t):
        """a term over my family, over that of o"""
        if self.vars is o.vars:
            return t
        if self.seq is None or self.seq != o.seq or len(self.vars) != len(o.vars):
            raise Unsupported("arrays of unlike length")
        return sub(t, list(zip(self.vars, o.vars)))

    def iterate(self, eng, st, ref):
        return Gen(self.vars, self.cond, self.elem, self.seq)

    def attribute(self, eng, st, ref, attr):
        if attr == "size":
            return self.length(eng, st, ref)
        return [(st, ref)] if attr == "flat" else [(st, Bd(ref, attr))]

    def method(self, eng, st, ref, attr, args, kw):
        if attr in ("copy", "ravel", "flatten") and not args and not kw:
            return new(eng, st, self.like(self.elem))
        if attr == "tolist" and not args and not kw:
            st = st.copy()
            return [(st, eng.alloc(st, LstO([Gen(self.vars, self.cond, self.elem, self.seq)])))]
        if attr in ("min", "max") and not args and not kw:
            return EXTREME(attr)(eng, st, [ref], {})
        if attr in ("any", "all") and not args and not kw:
            return [(st, z3.Exists(self.vars, zb(AND(self.cond, self.elem))) if attr == "any" else z3.ForAll(self.vars, zb(IMP(self.cond, self.elem))))]
        raise Unsupported(f"{attr} of an array")

    def length(self, eng, st, ref):
        n = eng.fresh("length", I)
        st = st.copy()
        st.pc.append((z3.And(n >= 0, (n == 0) == z3.Not(z3.Exists(self.vars, zb(self.cond)))), False))
        return [(st, n)]

    def subscript(self, eng, st, ref, k):
        m = mask(st, k)
        return new(eng, st, Ser(self.vars, AND(self.cond, m.to(self, m.elem)), self.elem, None))

    def put(self, eng, st, ref, k, w):
        m = mask(st, k)
        if not isnum(w):
            raise Unsupported("assignment to some entries")
        a, b = alike([val(w), self.elem])
        return [(update(st, ref, self.like(IT(zb(m.to(self, m.elem)), a, b))), None)]

    def inplace(self, eng, st, ref, op, b):
        o = arith(st, op, ref, b)
        return [(update(st, ref, o), ref)]

    def unary(self, eng, st, ref, op):
        if op == "USub":
            return new(eng, st, self.like(-self.elem))
        if op == "Invert" and z3.is_bool(self.elem):
            return new(eng, st, self.like(z3.Not(self.elem)))
        raise Unsupported(op)


def ser(st, x):
    o = st.heap[x.a] if isinstance(x, Ref) else x
    return o if isinstance(o, Ser) else None


def mask(st, k):
    m = ser(st, k)
    if m is None or not z3.is_bool(m.elem):
        raise Unsupported("subscript of an array")
    return m


def arith(st, op, a, b):
    x, y = ser(st, a), ser(st, b)
    o = x or y
    if x is None and not isnum(a) or y is None and not isnum(b):
        raise Unsupported("arithmetic on arrays")
    p, q = alike([x.to(o, x.elem) if x is not None else val(a), y.to(o, y.elem) if y is not None else val(b)])
    nm = op if isinstance(op, str) else type(op).__name__
    if nm == "Div":
        # divided by zero: an unspecified number
        return o.like(real(p) / real(q))
    f = {"Add": lambda: p + q, "Sub": lambda: p - q, "Mult": lambda: p * q, "Lt": lambda: p < q, "LtE": lambda: p <= q, "Gt": lambda: p > q, "GtE": lambda: p >= q,
         "Eq": lambda: p == q, "NotEq": lambda: p != q}.get(nm)
    if f is None:
        raise Unsupported(f"{nm} of arrays")
    return o.like(zb(f()) if nm in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq") else f())


def SER_BINOP(eng, st, op, a, b):
    if ser(st, a) is None and ser(st, b) is None:
        return None
    return new(eng, st, arith(st, op, a, b))


def SER_COMPARE(eng, st, op, a, b):
    """a mask is a value of its own (nothing is stored)"""
    if ser(st, a) is None and ser(st, b) is None or op in ("Is", "IsNot", "In", "NotIn"):
        return None
    return arith(st, op, a, b)


def SERIES(eng, st, args, kw):
    if len(args) != 1 or set(kw) - {"dtype"}:
        raise Unsupported("array")
    it = eng.iterate(st, args[0])
    if not isinstance(it, Gen) or not z3.is_arith(it.elem):
        raise Unsupported("array")
    seq = ("dict",) + it.seq[1:] if isinstance(it.seq, tuple) else None
    return new(eng, st, Ser(it.vars, it.cond, real(it.elem), seq))


def ABS(eng, st, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("abs")
    x = ser(st, args[0])
    ab = lambda t: z3.If(t >= 0, t, -t)
    if x is not None:
        return new(eng, st, x.like(ab(x.elem)))
    return [(st, abs(args[0]) if isinstance(args[0], (int, float)) else ab(args[0]))]


def EXTREME(which):
    def f(eng, st, args, kw):
        x = ser(st, args[0]) if len(args) == 1 else None
        if x is None or kw:
            raise Unsupported(which)
        out = []
        for s, some in eng.fork(st, z3.Exists(x.vars, zb(x.cond))):
            if not some:
                out.append((s, Exc("ValueError")))
                continue
            m = eng.fresh(which, x.elem.sort())
            s = s.copy()
            s.pc += [(z3.ForAll(x.vars, z3.Implies(zb(x.cond), m <= x.elem if which == "min" else m >= x.elem)), False), (z3.Exists(x.vars, zb(AND(x.cond, m == x.elem))), False)]
            out.append((s, m))
        return out
    return f


rounded = z3.Function("rounded", R, I, R)


def ROUND(eng, st, args, kw):
    kw = dict(kw)
    d = kw.pop("decimals", args[1] if len(args) > 1 else 0)
    x = ser(st, args[0])
    if x is None or kw or len(args) > 2 or not isint(d):
        raise Unsupported("round")
    return new(eng, st, x.like(rounded(real(x.elem), it_(d))))


SER_LIB = {"array": SERIES, "asarray": SERIES, "abs": ABS, "absolute": ABS, "min": EXTREME("min"), "amin": EXTREME("min"), "max": EXTREME("max"), "amax": EXTREME("max"), "round": ROUND, "around": ROUND,
           "binop": SER_BINOP, "compare": SER_COMPARE}
