"""Contracts on lp_utils.solveLP_sparse and the functions it uses: the task that is
handed to MOSEK is the stated linear program (or its dual), and what is returned
is read off the solution.

Matrices are sums of triplets. A vector is a matrix of one row without repeated
columns (that of `blank_coo_array`, which stands for nothing given, has none).
"""
from pyvc.objnp import *
from pyvc.objnp import dim, Arr, Sp, Piece, Native, HeapNative, Bn, Bd, LIB, COO, update, new, as_arr, position, it_, Key, nonneg
from pyvc.objvc import *
from .state import reg, B, I, R, Any, fn, P_
from .state import Name, CONTRACTS

LPU = "inflation/lp/lp_utils.py"
UTILS = "inflation/utils.py"
key = lambda s: strconst(s, Key)


# --------------------------------------------------------------------- inputs
def arr(eng, st, n, sort, nm):
    f = eng.fresh(nm, sort, I)
    return eng.alloc(st, Arr(n, lambda i: f(it_(i))))


def matrix(eng, st, nm, rows, cols):
    n = eng.fresh(nm + "_nnz", I)
    r = [arr(eng, st, n, s, f"{nm}_{a}") for a, s in (("row", I), ("col", I), ("data", R))]
    return eng.alloc(st, Sp((rows, cols), *r))


class M:
    """a matrix in a state"""
    def __init__(self, st, ref):
        self.m = st.heap[ref.a]
        self.shape = self.m.shape
        self.row, self.col, self.data = [st.heap[r.a] for r in (self.m.row, self.m.col, self.m.data)]
        self.n = self.data.n
        self.fmt = self.m.fmt

    def ins(self, k):
        return self.data.inside(k)


def formed(m):
    """triplets lie within the shape"""
    return AND(it_(m.n) >= 0, it_(m.shape[0]) >= 0, it_(m.shape[1]) >= 0,
               FA(I, lambda k: IMP(m.ins(k), AND(m.row.get(k) >= 0, m.row.get(k) < m.shape[0], m.col.get(k) >= 0, m.col.get(k) < m.shape[1]))))


def distinct_columns(m):
    return FA([I, I], lambda j, k: IMP(AND(m.ins(j), m.ins(k), m.col.get(j) == m.col.get(k)), j == k))


def mat_of(eng, po, v):
    o = po.st.heap[v.a] if isinstance(v, Ref) else None
    return M(po.st, v) if isinstance(o, Sp) else None


def same_entries(a, b, what=("col", "data")):
    return AND(EQ(a.n, b.n), FA(I, lambda k: IMP(a.ins(k), AND(*[EQ(getattr(a, w).get(k), getattr(b, w).get(k)) for w in what]))))


# ------------------------------------------------------------- drop_zero_rows
def UNIQUE(eng, st, args, kw):
    if len(args) != 1 or kw != {"return_inverse": True}:
        raise Unsupported("unique")
    a = as_arr(eng, st, args[0])
    m = eng.fresh("distinct", I)
    nz, inv, w = eng.fresh("values", I, I), eng.fresh("inverse", I, I), eng.fresh("where", I, I)
    st = st.copy()
    st.pc += [(m >= 0, False),
              (FA(I, lambda k: IMP(a.inside(k), AND(inv(k) >= 0, inv(k) < m, nz(inv(k)) == a.get(k)))), False),
              (FA(I, lambda r: IMP(AND(r >= 0, r < m), AND(a.inside(w(r)), inv(w(r)) == r))), False),
              (FA([I, I], lambda r, s: IMP(AND(r >= 0, r < s, s < m), nz(r) < nz(s))), False)]
    x, y = eng.alloc(st, Arr(m, lambda i: nz(it_(i)))), eng.alloc(st, Arr(a.n, lambda i: inv(it_(i))))
    return [(st, (x, y))]


def dropped(a, b):
    """b is a without its empty rows"""
    return [("the entries are kept", same_entries(a, b)),
            ("the columns are kept", EQ(a.shape[1], b.shape[1])),
            ("rows stay apart, and together", FA([I, I], lambda j, k: IMP(AND(a.ins(j), a.ins(k)), IFF(a.row.get(j) == a.row.get(k), b.row.get(j) == b.row.get(k))))),
            ("every row has an entry", AND(it_(b.shape[0]) >= 0, FA(I, lambda r: IMP(AND(r >= 0, r < b.shape[0]), EX(I, lambda k: AND(b.ins(k), b.row.get(k) == r)))))),
            ("entries are in the rows", FA(I, lambda k: IMP(b.ins(k), AND(b.row.get(k) >= 0, b.row.get(k) < b.shape[0]))))]


def one_matrix(eng, st):
    r, c = eng.fresh("rows", I), eng.fresh("cols", I)
    m = matrix(eng, st, "given", r, c)
    return {"args": [m], "requires": [("well formed", formed(M(st, m)))]}


def drop_ens(eng, pr, po, v, ctx):
    b = mat_of(eng, po, v)
    if b is None:
        return [("a matrix is returned", False)]
    return dropped(M(pr.st, ctx["args"][0]), b)


reg(name="drop_zero_rows", module=LPU, fn="drop_zero_rows", stubs=dict(LIB, unique=UNIQUE), setup=one_matrix, ensures=drop_ens, modifies=set())


def DROP(eng, st, args, kw):
    a = M(st, args[0])
    st = st.copy()
    m = eng.fresh("rows_left", I)
    f, w = eng.fresh("new_row", I, I), eng.fresh("row_entry", I, I)
    r = eng.alloc(st, Arr(a.n, lambda i: f(it_(i))))
    c, d = [eng.alloc(st, Arr(a.n, x.get, False, True)) for x in (a.col, a.data)]
    ref = eng.alloc(st, Sp((m, a.shape[1]), r, c, d))
    for nm, g in dropped(a, M(st, ref)):
        if nm != "every row has an entry":
            st.pc.append((zb(g), False))
    st.pc += [(m >= 0, False), (FA(I, lambda r: IMP(AND(r >= 0, r < m), AND(w(r) >= 0, w(r) < a.n, f(w(r)) == r))), False)]
    return [(st, ref)]


# ------------------------------------------------------------ canonical_order
def LEXSORT(eng, st, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("lexsort")
    it = eng.iterate(st, args[0])
    if not isinstance(it, list) or not it:
        raise Unsupported("lexsort")
    xs = [as_arr(eng, st, x) for x in it]
    if not all(eng.proves(st.pcs(), zb(EQ(x.n, xs[0].n)), 2000) for x in xs[1:]):
        raise Unsupported("arrays of unlike length")
    st = st.copy()
    s, t = shuffle(eng, st, xs[0].n)
    eng.ghost = (s, t)
    return [(st, eng.alloc(st, Arr(xs[0].n, lambda i: s(it_(i)))))]


def shuffle(eng, st, n):
    """a permutation of 0..n-1 and its inverse"""
    s, t = eng.fresh("order", I, I), eng.fresh("order_inv", I, I)
    st.pc.append((FA(I, lambda i: IMP(AND(i >= 0, i < n), AND(s(i) >= 0, s(i) < n, t(s(i)) == i, t(i) >= 0, t(i) < n, s(t(i)) == i))), False))
    return s, t


def reordered(a, b, s):
    return [("the shape is kept", AND(EQ(a.shape[0], b.shape[0]), EQ(a.shape[1], b.shape[1]))),
            ("the entries are those given, in some order", AND(EQ(a.n, b.n), EQ(a.row.n, b.row.n), EQ(a.col.n, b.col.n),
             FA(I, lambda i: IMP(b.ins(i), AND(EQ(b.row.get(i), a.row.get(s(i))), EQ(b.col.get(i), a.col.get(s(i))), EQ(b.data.get(i), a.data.get(s(i))))))))]


def order_ens(eng, pr, po, v, ctx):
    if not (isinstance(v, Ref) and v.a == ctx["args"][0].a):
        return [("the matrix itself is returned", False)]
    g = getattr(eng, "ghost", None)
    s, w = g if g else ((lambda i: i), (lambda i: i))
    a, b = M(pr.st, v), M(po.st, v)
    one = FA(I, lambda i: IMP(a.ins(i), AND(a.ins(w(i)), s(w(i)) == i)))
    return reordered(a, b, s) + [("each of them", one)]


reg(name="canonical_order", module=LPU, fn="canonical_order", stubs=dict(LIB, lexsort=LEXSORT), setup=one_matrix, ensures=order_ens, modifies=set())


def ORDER(eng, st, args, kw):
    a = M(st, args[0])
    st = st.copy()
    s, t = shuffle(eng, st, a.n)
    eng.order_of = (a.n, s, t)
    rs = [eng.alloc(st, Arr(x.n, lambda i, x=x: x.get(s(it_(i))))) for x in (a.row, a.col, a.data)]
    st.heap[args[0].a] = Sp(a.shape, *rs, a.fmt)
    return [(st, args[0])]


# --------------------------------------------------------------------- vstack
def stacked(eng, st, xs, fmt):
    """a matrix with the rows of all, one after the other"""
    r, c, k = 0, 0, 0
    rows, some = [], 0
    for x in xs:
        rows.append(Arr(x.n, lambda i, x=x, r=r: x.row.get(i) + r))
        r = z3.simplify(it_(r) + x.shape[0])
        some = some + z3.If(it_(x.shape[0]) != 0, 1, 0)
    c = it_(xs[0].shape[1])
    for x in xs[1:]:
        c = z3.If(c >= x.shape[1], c, it_(x.shape[1]))
    alone = it_(xs[-1].shape[1])
    for x in xs[:-1][::-1]:
        alone = z3.If(it_(x.shape[0]) != 0, it_(x.shape[1]), alone)
    c = dim(eng, st, z3.If(some == 1, alone, c))
    st = st.copy()
    rs = [eng.alloc(st, cat(rows)), eng.alloc(st, cat([x.col for x in xs])), eng.alloc(st, cat([x.data for x in xs]))]
    return st, eng.alloc(st, Sp((r, c), *rs, fmt))


def several(n):
    def setup(eng, st):
        ms = [matrix(eng, st, f"block{i}", eng.fresh("rows", I), eng.fresh("cols", I)) for i in range(n)]
        return {"args": [tuple(ms)], "requires": [("well formed", AND(*[formed(M(st, m)) for m in ms]))]}
    return setup


def vstack_ens(eng, pr, po, v, ctx):
    got = mat_of(eng, po, v)
    if got is None:
        return [("a matrix is returned", False)]
    st, w = stacked(eng, pr.st, [M(pr.st, m) for m in ctx["args"][0]], "coo")
    want = M(st, w)
    return [("the rows of all", EQ(got.shape[0], want.shape[0])), ("the columns", EQ(got.shape[1], want.shape[1])),
            ("the entries of all, the rows of each behind those before", same_entries(got, want, ("row", "col", "data")))]


for n in (2, 3):
    reg(name=f"vstack[{n}]", module=UTILS, fn="vstack", stubs=LIB, setup=several(n), ensures=vstack_ens, modifies=set())


def VSTACK(eng, st, args, kw):
    a = args[0]
    if not isinstance(a, tuple) or set(kw) - {"format"}:
        raise Unsupported("vstack")
    xs = [M(st, r) for r in a]
    for x in xs:
        if x.fmt != "coo" or not eng.proves(st.pcs(), zb(formed(x)), 5000):
            raise Unsupported("vstack of what may not be well formed")
    st, r = stacked(eng, st, xs, kw.get("format", "coo"))
    return [(st, r)]


# --------------------------------------------------------- expand_sparse_vec
def expanded(eng, st, v):
    n = v.n
    st = st.copy()
    rs = [eng.alloc(st, Arr(n, lambda i: it_(i))), eng.alloc(st, Arr(n, v.col.get, False, True)), eng.alloc(st, Arr(n, lambda i: z3.RealVal(1)))]
    return st, eng.alloc(st, Sp((n, v.shape[1]), *rs))


def expand_ens(eng, pr, po, v, ctx):
    got = mat_of(eng, po, v)
    if got is None:
        return [("a matrix is returned", False)]
    st, w = expanded(eng, pr.st, M(pr.st, ctx["args"][0]))
    want = M(st, w)
    return [("a row for each entry", AND(EQ(got.shape[0], want.shape[0]), EQ(got.shape[1], want.shape[1]))), ("with a one in its column", same_entries(got, want, ("row", "col", "data")))]


reg(name="expand_sparse_vec[eq, by position]", module=UTILS, fn="expand_sparse_vec", stubs=LIB, setup=lambda eng, st: dict(one_matrix(eng, st), kw={"conversion_style": "eq"}), ensures=expand_ens, modifies=set())


def EXPAND(eng, st, args, kw):
    if len(args) == 1 and kw.get("conversion_style", "eq") == "eq" and set(kw) <= {"conversion_style"}:
        st, r = expanded(eng, st, M(st, args[0]))
        return [(st, r)]
    raise Unsupported("expand_sparse_vec")


# ---------------------------------------------------------------- the MOSEK task
class Env(Native):
    def attribute(self, eng, st, attr):
        if attr == "Task":
            return [(st, MakeTask())]
        raise Unsupported(attr)


class MakeTask(Native):
    def call(self, eng, st, args, kw):
        return new(eng, st, Task({}))


SOL = Sort("SolutionStatus")
Term = Sort("TermCode")


class Task(HeapNative):
    """records what it is given"""
    QUIET = {"putintparam", "putdouparam", "putstrparam", "set_Stream", "writedata"}

    def __init__(self, got):
        self.got = got

    def method(self, eng, st, ref, attr, args, kw):
        if attr in self.QUIET:
            return [(st, None)]
        if kw:
            raise Unsupported("named arguments of the task")
        got = dict(self.got)
        if attr == "putobjsense" and len(args) == 1 and isinstance(args[0], Bn):
            got["sense"] = args[0].name.split(".")[-1]
            return [(update(st, ref, Task(got)), None)]
        if attr == "inputdata" and len(args) == 14 and "data" not in got:
            got["data"] = args
            got["at"] = st
            return [(update(st, ref, Task(got)), None)]
        if attr == "optimize" and not args and "data" in got and "solved" not in got:
            got["solved"] = True
            return [(update(st, ref, Task(got)), eng.fresh("trmcode", Term))]
        if attr == "getsolution" and len(args) == 1 and "solved" in got:
            st = st.copy()
            numcon, numvar = got["data"][0], got["data"][1]
            xx, yy = arr(eng, st, numvar, R, "solution_xx"), arr(eng, st, numcon, R, "solution_y")
            sta = eng.fresh("solution_status", SOL)
            got.update(xx=xx, yy=yy, sta=sta)
            other = lambda: Native()
            return [(update(st, ref, Task(got)), (other(), sta, other(), other(), other(), other(), xx, yy, other(), other(), other(), other(), other()))]
        if attr in ("getprimalobj", "getdualobj") and len(args) == 1 and "solved" in got:
            if attr not in got:
                got[attr] = eng.fresh(attr, R)
            return [(update(st, ref, Task(got)), got[attr])]
        raise Unsupported(f"task.{attr}")


def task_of(st):
    ts = [o for o in st.heap.values() if isinstance(o, Task)]
    return ts[0].got if len(ts) == 1 else {}


SATTRS = {("SolutionStatus", "__repr__()"): lambda eng, st, o, args, kw: [(st, TEXT)]}
code_text = fn("getcodedesc", Term, Sort("TermText"))


def SAME(eng, st, op, a, b):
    """comparing an enumeration with a member of it"""
    for x, y in ((a, b), (b, a)):
        if z3.is_expr(x) and x.sort() == SOL and isinstance(y, Bn) and y.name.startswith("mosek.solsta."):
            c = x == strconst(y.name.split(".")[-1], SOL)
            if op in ("Eq", "Is"):
                return c
            if op in ("NotEq", "IsNot"):
                return NOT(c)
    return None


TOLP = dict(LIB, drop_zero_rows=DROP, canonical_order=ORDER, vstack=VSTACK, expand_sparse_vec=EXPAND, compare=SAME, perf_counter=lambda eng, st, args, kw: [(st, 0)],
            format=lambda eng, st, args, kw: [(st, TEXT)], getcodedesc=lambda eng, st, args, kw: [(st, code_text(args[0]))], Env=lambda eng, st, args, kw: [(st, Env())], Task=lambda eng, st, args, kw: new(eng, st, Task({})))
VECTORS = ("objective", "known_vars", "lower_bounds", "upper_bounds")
CONS = ("inequalities", "equalities")


def solve_setup(dual, rk, ri):
    def setup(eng, st):
        n = eng.fresh("nof_variables", I)
        eng.dims = [n, n + 1]
        req = [("there are variables", n >= 1)]
        kw = {}
        widths = []
        for nm in VECTORS + CONS:
            cols = eng.fresh(nm + "_cols", I)
            rows = eng.fresh(nm + "_rows", I)
            ref = matrix(eng, st, nm, rows, cols)
            m = M(st, ref)
            req.append((f"{nm}: well formed", formed(m)))
            req.append((f"{nm}: a column for each variable, or not given", OR(cols == n, AND(cols == 0, rows == 0))))
            if nm in VECTORS:
                req.append((f"{nm}: one row, no column twice", AND(IMP(cols == n, rows == 1), distinct_columns(m))))
            req.append((f"{nm}: entries are in columns", IMP(m.n >= 1, cols == n)))
            widths.append(cols == n)
            kw[nm] = ref
        req.append(("something has the variables as columns", OR(*widths)))
        if rk or ri:
            req.append(("there is something to relax, and no objective", AND(EQ(M(st, kw["objective"]).n, 0), *([it_(M(st, kw["known_vars"]).n) >= 1] if rk else []), *([it_(M(st, kw["inequalities"]).n) >= 1] if ri else []))))
        names = arr(eng, st, n, Name, "name")
        x = st.heap[names.a]
        st.heap[names.a] = Arr(n, x.get, True)
        req.append(("distinct variables have distinct names", FA([I, I], lambda i, j: IMP(AND(x.inside(i), x.inside(j), x.get(i) == x.get(j)), i == j))))
        nn = eng.fresh("default_non_negative", B)
        kw.update(variables=names, solve_dual=dual, relax_known_vars=rk, relax_inequalities=ri, default_non_negative=nn, verbose=0, solverparameters=None)
        return {"args": [], "kw": kw, "requires": req, "n": n, "nn": nn, "inputs": {}}
    return setup


def each(n, f):
    return FA(I, lambda i: IMP(AND(i >= 0, i < n), f(i)))


class V:
    """a vector: what it has at a column"""
    def __init__(self, eng, st, ref):
        self.m = M(st, ref)
        self.st, self.mem, self.pos = position(eng, st, self.m.col)

    def at(self, v):
        return real(self.m.data.get(self.pos(v)))


def solve_ens(dual, rk, ri):
    relaxed = rk or ri

    def ens(eng, pr, po, v, ctx):
        kw, n, nn = ctx["kw"], ctx["n"], zb(ctx["nn"])
        nn = z3.BoolVal(False) if relaxed else nn
        t = task_of(po.st)
        if "data" not in t:
            return [("the program is handed over", False)]
        s = t["at"]
        numcon, numvar, c, cfix, ptrb, ptre, sub_, aval, bkc, blc, buc, bkx, blx, bux = t["data"]
        ps = (ptrb, ptre, sub_, aval)
        if not (all(isinstance(p, Piece) for p in ps) and len({p.ref.a for p in ps}) == 1 and [(p.what, p.cut) for p in ps] == [("indptr", "start"), ("indptr", "end"), ("indices", None), ("data", None)]):
            return [("the constraint matrix is handed over in compressed form", False)]
        A = M(s, ps[0].ref)
        c, bkc, blc, buc, bkx, blx, bux = [as_arr(eng, s, x) for x in (c, bkc, blc, buc, bkx, blx, bux)]
        I_, E_, K_ = [M(po.st, kw[k]) for k in ("inequalities", "equalities", "known_vars")]
        vec = {}
        for k in VECTORS:
            vec[k] = V(eng, po.st, kw[k])
            po.st.pc += [x for x in vec[k].st.pc[len(po.st.pc):]]
        obj, lb, ub, kn = [vec[k] for k in ("objective", "lower_bounds", "upper_bounds", "known_vars")]
        N = n + 1 if relaxed else n
        lam, zero = n, z3.RealVal(0)
        goal = (lambda i: IT(i == lam, z3.RealVal(-1), zero)) if relaxed else (lambda i: IT(obj.mem(i), obj.at(i), zero))
        what = "the slack is minimised" if relaxed else "the objective is the one stated"
        low = lambda k, i: OR(k.get(i) == key("lo"), k.get(i) == key("ra"), k.get(i) == key("fx"))
        upp = lambda k, i: OR(k.get(i) == key("up"), k.get(i) == key("ra"), k.get(i) == key("fx"))
        is_zero = lambda x, i: EQ(real(x.get(i)), zero)
        out = [("no constant", EQ(cfix, 0)), ("as many variables as stated", EQ(A.shape[1], N)),
               ("lengths", AND(*[EQ(x.n, numcon) for x in (bkc, blc, buc)], *[EQ(x.n, numvar) for x in (c, bkx, blx, bux)]))]
        if not dual:
            out += [("the matrix is handed over in columns", A.fmt == "csc"),
                    ("as many constraints and variables as the matrix has", AND(EQ(numcon, A.shape[0]), EQ(numvar, A.shape[1]))),
                    ("the objective is maximised", t.get("sense") == "maximize"),
                    (what, each(N, lambda i: EQ(real(c.get(i)), goal(i)))),
                    ("lower bounds", each(n, lambda i: AND(IFF(low(bkx, i), OR(nn, lb.mem(i))), IMP(low(bkx, i), EQ(real(blx.get(i)), IT(lb.mem(i), lb.at(i), zero)))))),
                    ("upper bounds", each(n, lambda i: AND(IFF(upp(bkx, i), ub.mem(i)), IMP(upp(bkx, i), EQ(real(bux.get(i)), ub.at(i))))))]
            if relaxed:
                out.append(("the slack is free", bkx.get(lam) == key("fr")))
            geq = lambda r: bkc.get(r) == key("lo")
            leq = lambda r: bkc.get(r) == key("up")
            equ = lambda r: bkc.get(r) == key("fx")
            rhs = lambda r, x: AND(IMP(low(bkc, r), EQ(real(blc.get(r)), x)), IMP(upp(bkc, r), EQ(real(buc.get(r)), x)))
            nL = nU = 0
        else:
            # the multipliers of >= are non-positive, those of <= non-negative, those of = free;
            # those of the variables' default bounds are the slacks of the constraints
            nL, nU = it_(lb.m.n), it_(ub.m.n)
            out += [("the matrix is handed over in rows", A.fmt == "csr"),
                    ("as many multipliers and constraints as the matrix has rows and columns", AND(EQ(numcon, A.shape[1]), EQ(numvar, A.shape[0]))),
                    ("the dual objective is minimised", t.get("sense") == "minimize"),
                    (what, each(N, lambda i: AND(low(bkc, i), EQ(real(blc.get(i)), goal(i)), IMP(upp(bkc, i), EQ(real(buc.get(i)), goal(i)))))),
                    ("the default bound applies to variables without a lower bound", each(n, lambda i: IFF(upp(bkc, i), NOT(AND(nn, NOT(lb.mem(i)))))))]
            if relaxed:
                out.append(("the slack is free", bkc.get(lam) == key("fx")))
            geq = lambda r: AND(bkx.get(r) == key("up"), is_zero(bux, r))
            leq = lambda r: AND(bkx.get(r) == key("lo"), is_zero(blx, r))
            equ = lambda r: bkx.get(r) == key("fr")
            rhs = lambda r, x: EQ(real(c.get(r)), x)
        rows, known_rows = stated_rows(eng, A, I_, E_, K_, lb.m, ub.m, nL, nU, n, rk, ri, geq, leq, equ, rhs)
        out += rows
        if "solved" not in t or not all(k in t for k in ("xx", "yy", "sta", "getprimalobj", "getdualobj")):
            return out + [("the solution is read", False)]
        return out + result(eng, po, v, ctx, t, dual, obj, kn, known_rows)
    return ens


def stated_rows(eng, A, I_, E_, K_, L_, U_, nL, nU, n, rk, ri, geq, leq, equ, rhs):
    """the matrix lists the entries of the inequalities, of the equalities, the slacks, the known values, the bounds"""
    nI, nE, nK = it_(I_.n), it_(E_.n), it_(K_.n)
    zero, one, lam = z3.RealVal(0), z3.RealVal(1), n
    row = lambda k: A.row.get(k)
    ent = lambda k, c, d: AND(EQ(A.col.get(k), c), EQ(real(A.data.get(k)), d))
    per = 4 if rk else 1
    slacks = z3.simplify(A.n - nI - nE - per * nK - nL - nU) if ri else z3.IntVal(0)
    e, sl, h0 = (lambda k: k + nI), (lambda k: k + nI + nE), nI + nE + slacks
    b0 = h0 + per * nK
    out = []
    add = lambda nm, g: out.append((nm, g))
    part = lambda k: IT(k < nI, z3.IntVal(0), IT(k < nI + nE, z3.IntVal(1), IT(k < h0, z3.IntVal(0), IT(k < b0, z3.IntVal(2), z3.IntVal(3)))))
    add("nothing but the entries of what is stated", AND(EQ(A.n, b0 + nL + nU), slacks >= 0))
    add("every entry is in a row and a column", each(A.n, lambda k: AND(row(k) >= 0, row(k) < A.shape[0], A.col.get(k) >= 0, A.col.get(k) < A.shape[1])))
    add("rows of unlike statements are unlike", FA([I, I], lambda j, k: IMP(AND(A.ins(j), A.ins(k), row(j) == row(k)), part(j) == part(k))))
    add("inequalities", each(nI, lambda k: AND(ent(k, I_.col.get(k), I_.data.get(k)), geq(row(k)), rhs(row(k), zero))))
    add("entries of one inequality are in one row", FA([I, I], lambda j, k: IMP(AND(I_.ins(j), I_.ins(k)), IFF(row(j) == row(k), I_.row.get(j) == I_.row.get(k)))))
    add("equalities", each(nE, lambda k: AND(ent(e(k), E_.col.get(k), E_.data.get(k)), equ(row(e(k))), rhs(row(e(k)), zero))))
    add("entries of one equality are in one row", FA([I, I], lambda j, k: IMP(AND(E_.ins(j), E_.ins(k)), IFF(row(e(j)) == row(e(k)), E_.row.get(j) == E_.row.get(k)))))
    if ri:
        add("slacks have coefficient one", each(slacks, lambda k: ent(sl(k), lam, one)))
        add("one slack in a row", FA([I, I], lambda j, k: IMP(AND(j >= 0, j < slacks, k >= 0, k < slacks, row(sl(j)) == row(sl(k))), j == k)))
        add("a slack for each inequality", each(nI, lambda k: AND(row(k) >= 0, row(k) < slacks, row(sl(row(k))) == row(k))))
    if not rk:
        h = lambda k: k + h0
        add("known values", each(nK, lambda k: AND(ent(h(k), K_.col.get(k), one), equ(row(h(k))), rhs(row(h(k)), K_.data.get(k)))))
        add("each known value in a row of its own", FA([I, I], lambda j, k: IMP(AND(j >= 0, j < nK, k >= 0, k < nK, row(h(j)) == row(h(k))), j == k)))
        of = [h]
    else:
        o = getattr(eng, "order_of", None)
        t = o[2] if o is not None and eng.proves([], zb(EQ(o[0], 4 * nK)), 1000) else (lambda k: k)
        h = lambda k: t(k) + h0
        lo, up, lo_s, up_s = h, (lambda k: h(nK + k)), (lambda k: h(2 * nK + k)), (lambda k: h(3 * nK + k))
        add("the order of the entries is one", each(4 * nK, lambda k: AND(t(k) >= 0, t(k) < 4 * nK)))
        add("no entry is counted twice", FA([I, I], lambda j, k: IMP(AND(j >= 0, j < 4 * nK, k >= 0, k < 4 * nK, t(j) == t(k)), j == k)))
        add("known values, from below", each(nK, lambda k: AND(ent(lo(k), K_.col.get(k), one), ent(lo_s(k), lam, one), row(lo(k)) == row(lo_s(k)), geq(row(lo(k))), rhs(row(lo(k)), K_.data.get(k)))))
        add("known values, from above", each(nK, lambda k: AND(ent(up(k), K_.col.get(k), one), ent(up_s(k), lam, -one), row(up(k)) == row(up_s(k)), leq(row(up(k))), rhs(row(up(k)), K_.data.get(k)))))
        add("each in a row of its own", FA([I, I], lambda j, k: IMP(AND(j >= 0, j < 2 * nK, k >= 0, k < 2 * nK, row(h(j)) == row(h(k))), j == k)))
        of = [lo, up]
    if not (isinstance(nL, int) and nL == 0):
        l, u = (lambda k: k + b0), (lambda k: k + b0 + nL)
        add("lower bounds", each(nL, lambda k: AND(ent(l(k), L_.col.get(k), one), geq(row(l(k))), rhs(row(l(k)), L_.data.get(k)))))
        add("upper bounds", each(nU, lambda k: AND(ent(u(k), U_.col.get(k), -one), geq(row(u(k))), rhs(row(u(k)), -U_.data.get(k)))))
        add("each bound in a row of its own", FA([I, I], lambda j, k: IMP(AND(j >= b0, j < A.n, k >= b0, k < A.n, row(j) == row(k)), j == k)))
    # a row without entries says nothing
    own = (2 if rk else 1) * nK
    r0 = A.shape[0] - nL - nU - own
    at = lambda k, r: AND(k >= h0, k < A.n, row(k) == r)
    add("rows without entries ask for nothing", each(A.shape[0], lambda r: OR(rhs(r, zero), AND(r >= r0, r < r0 + own, at(h(r - r0), r)), AND(r >= r0 + own, at(b0 + r - r0 - own, r)))))
    return out, [lambda k, f=f: row(f(k)) for f in of]


def result(eng, po, v, ctx, t, dual, obj, kn, known_rows):
    """what is returned is read off the solution"""
    n = ctx["n"]
    r = po.obj(v) if isinstance(v, Ref) else None
    if not isinstance(r, CDict) or set(r.items) != {"primal_value", "dual_value", "status", "success", "dual_certificate", "sparse_certificate", "x", "term_code"}:
        return [("the solution is returned", False)]
    g = r.items
    names, xx, yy = [po.st.heap[x.a] for x in (ctx["kw"]["variables"], t["xx"], t["yy"])]
    if dual:
        xx, yy = yy, xx
    zero = z3.RealVal(0)
    best = t["sta"] == strconst("optimal", SOL)
    out = [("values", AND(EQ(g["primal_value"], t["getdualobj" if dual else "getprimalobj"]), EQ(g["dual_value"], t["getprimalobj" if dual else "getdualobj"]))),
           ("success means optimal", IFF(g["success"], best))]
    x, cert = po.obj(g["x"]), po.obj(g["dual_certificate"])
    if not (isinstance(x, DictO) and isinstance(cert, DictO)):
        return out + [("dictionaries are returned", False)]
    q = var(Name, "q")
    isvar = lambda q: EX(I, lambda i: AND(names.inside(i), names.get(i) == q))
    out += [("a value for each variable", each(n, lambda i: AND(x.dom(names.get(i)), EQ(real(x.val(names.get(i))), xx.get(i))))),
            ("only variables have values", FA(Name, lambda q: IMP(x.dom(q), isvar(q))))]
    y = lambda i: sum([yy.get(f(kn.pos(i))) for f in known_rows], zero)
    coef = lambda i: IT(AND(best, obj.mem(i)), -obj.at(i), zero) + IT(kn.mem(i), y(i), zero)
    keep = lambda i: NOT(isclose(coef(i), zero))
    out += [("the certificate: multipliers of the known values minus the objective", each(n, lambda i: AND(IFF(cert.dom(names.get(i)), keep(i)), IMP(keep(i), EQ(real(cert.val(names.get(i))), coef(i)))))),
            ("a certificate over the variables", FA(Name, lambda q: IMP(cert.dom(q), isvar(q))))]
    sp = mat_of(eng, po, g["sparse_certificate"])
    if sp is None:
        return out + [("the certificate is a matrix as well", False)]
    out.append(("the certificate as a matrix", each(n, lambda i: AND(EQ(sp.row.get(i), 0), EQ(sp.col.get(i), i), EQ(real(sp.data.get(i)), coef(i))))))
    return out


for dual in (False, True):
    for rk, ri in [(False, False), (True, False), (False, True), (True, True)]:
        what = ", ".join((["known values"] if rk else []) + (["inequalities"] if ri else []))
        reg(name=f"solveLP_sparse[{'dual' if dual else 'primal'}{', relaxed ' + what if what else ''}]", module=LPU, fn="solveLP_sparse", attrs=SATTRS, stubs=TOLP,
            setup=solve_setup(dual, rk, ri), ensures=solve_ens(dual, rk, ri), modifies=set(), patience=80, cost=20 + 10 * (rk or ri) + 20 * dual)
