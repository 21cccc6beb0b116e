"""Assumed contracts of the numpy / builtin operations used by the verified code.

Each model is a *trusted* specification of a library function over mathematical
integers (no overflow), listed in the evidence as part of the trusted base.
"""
import ast
import z3

from .values import *
from . import values as V

CMP = {
    "Eq": lambda a, b: EQ(a, b), "NotEq": lambda a, b: NOT(EQ(a, b)),
    "Lt": lambda a, b: to_int(a) < to_int(b), "LtE": lambda a, b: to_int(a) <= to_int(b),
    "Gt": lambda a, b: to_int(a) > to_int(b), "GtE": lambda a, b: to_int(a) >= to_int(b),
}
LOG = {"and": AND, "or": OR, "xor": lambda a, b: NOT(EQ(to_bool(a), to_bool(b)))}


def _bop(op, ba, bb):
    """(function, result dtype)"""
    if op in CMP:
        return CMP[op], "b"
    if op in LOG:
        return LOG[op], "b"
    both = ba and bb
    if op == "Add":
        return (OR, "b") if both else (lambda a, b: to_int(a) + to_int(b), "i")
    if op == "Sub":
        if both:
            raise Unsupported("boolean subtract")
        return (lambda a, b: to_int(a) - to_int(b)), "i"
    if op == "Mult":
        return (AND, "b") if both else (lambda a, b: to_int(a) * to_int(b), "i")
    if op == "BitAnd" and both:
        return AND, "b"
    if op == "BitOr" and both:
        return OR, "b"
    if op == "BitXor" and both:
        return LOG["xor"], "b"
    raise Unsupported(f"array operator {op}")


def same_mask(eng, f, g):
    if f.mask is g.mask:
        return True
    if V.to_int(f.n) is not V.to_int(g.n) and not eng.proves([], EQ(f.n, g.n), 500):
        return False
    k = z3.Int("sm!k")
    return eng.proves([k >= 0, k < V.zi(f.n)], EQ(V.zb(f.mask(k)), V.zb(g.mask(k))), 1000)


def is_scalar(v):
    return is_sym(v) or isinstance(v, (int, bool))


def elementwise(eng, st, op, a, b):
    if isinstance(a, Filt) or isinstance(b, Filt):
        def g(x, y):
            fn, _ = _bop(op, is_boolish(x), is_boolish(y))
            return fn(x, y)
        if isinstance(a, Filt) and isinstance(b, Filt):
            if not same_mask(eng, a, b):
                raise Unsupported("elementwise operation on differently filtered arrays")
            return Filt(lambda k: g(a.src(k), b.src(k)), a.mask, a.n)
        if isinstance(a, Filt) and is_scalar(b):
            return Filt(lambda k: g(a.src(k), b), a.mask, a.n)
        if isinstance(b, Filt) and is_scalar(a):
            return Filt(lambda k: g(a, b.src(k)), b.mask, b.n)
        raise Unsupported("filtered elementwise")
    a = _arr_or_scalar(eng, st, a)
    b = _arr_or_scalar(eng, st, b)
    ba = a.dtype == "b" if isinstance(a, A) else is_boolish(a)
    bb = b.dtype == "b" if isinstance(b, A) else is_boolish(b)
    fn, dt = _bop(op, ba, bb)
    shape, ga, gb = broadcast(eng, st, a, b)
    return st.alloc(A(shape, lambda *k: fn(ga(*k), gb(*k)), dt))


def _arr_or_scalar(eng, st, v):
    if eng.is_array(st, v):
        return eng.snap(st, v)
    if is_scalar(v):
        return v
    sv = eng.seqview(st, v)
    if sv is not None:
        return A((sv.n,), sv.get, "b" if is_boolish(sv.get(0)) else "i")
    if isinstance(v, tuple) and all(is_scalar(x) for x in v):
        return A((len(v),), eng.pick(list(v)))
    raise Unsupported(f"array operand {type(v).__name__}")


def broadcast(eng, st, a, b):
    if not isinstance(a, A):
        return b.shape, (lambda *k: a), b.get
    if not isinstance(b, A):
        return a.shape, a.get, (lambda *k: b)
    n = max(a.ndim, b.ndim)
    sa = (1,) * (n - a.ndim) + a.shape
    sb = (1,) * (n - b.ndim) + b.shape
    shape, ma, mb = [], [], []
    for x, y in zip(sa, sb):
        x, y = to_int(x), to_int(y)
        if isinstance(x, int) and x == 1:
            shape.append(y); ma.append(True); mb.append(False)
        elif isinstance(y, int) and y == 1:
            shape.append(x); ma.append(False); mb.append(True)
        else:
            if not (isinstance(x, int) and isinstance(y, int) and x == y) and not (
                    isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and x.eq(y)):
                eng.oblige(st, EQ(x, y), "operand shapes agree", "shape")
            shape.append(x); ma.append(False); mb.append(False)

    def mk(arr, m):
        off = n - arr.ndim
        return lambda *k: arr.get(*[0 if m[d] else k[d] for d in range(off, n)])
    return tuple(shape), mk(a, ma), mk(b, mb)


# ------------------------------------------------------------------ indexing
def norm_index(eng, st, i, n, check=True, what="index in range"):
    i = to_int(i)
    if isinstance(i, int):
        if i < 0:
            if check:
                eng.oblige(st, to_int(n) >= -i, what, "bounds")
            return add(n, i)
        if check:
            c = to_int(n) > i
            if c is not True:
                eng.oblige(st, c, what, "bounds")
        return i
    if check:
        eng.oblige(st, AND(i >= 0, i < to_int(n)), what, "bounds")
    return i


def has_quant(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


def known(eng, st, cond):
    """cond follows from the quantifier-free part of the path condition"""
    c = to_bool(cond)
    if isinstance(c, bool):
        return c
    if st is None:
        return False
    return eng.proves([p for p in st.pc if not has_quant(p)], c, 300)


def slice_bounds(sl, n, eng=None, st=None):
    """(lo, hi) with 0 <= lo <= hi <= n for a unit step"""
    n = to_int(n)
    if eng is not None and not (sl.lo is None and sl.hi is None):
        lo = 0 if sl.lo is None else to_int(sl.lo)
        hi = n if sl.hi is None else to_int(sl.hi)
        if not (isinstance(lo, int) and lo < 0) and not (isinstance(hi, int) and hi < 0) and \
                known(eng, st, AND(le(0, lo), le(lo, hi), le(hi, n))):
            return lo, hi

    def clamp(v, default):
        if v is None:
            return default
        v = to_int(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return min(max(v, 0), n)
        if isinstance(v, int):
            if v == 0:
                return 0
            if v < 0:
                return z3.If(n + v < 0, z3.IntVal(0), n + v)
            return z3.If(n < v, n, z3.IntVal(v))
        if isinstance(n, z3.ExprRef) and v.eq(n):
            return v
        w = z3.If(v < 0, v + n, v)
        return z3.If(w < 0, z3.IntVal(0), z3.If(w > n, V.zi(n), w))
    lo, hi = clamp(sl.lo, 0), clamp(sl.hi, n)
    if isinstance(lo, int) and lo == 0:
        return lo, hi
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(lo, hi)
    if sl.hi is None and not isinstance(lo, int):
        return lo, hi      # lo is already clamped to n
    return lo, z3.If(V.zi(hi) < V.zi(lo), V.zi(lo), V.zi(hi))


def getitem(eng, st, base, idx, check=True):
    shape = eng.shape(st, base)
    items = list(idx) if isinstance(idx, tuple) else [idx]
    if any(x is Ellipsis for x in items):
        k = items.index(Ellipsis)
        fill = len(shape) - sum(1 for x in items if x is not Ellipsis and x is not None)
        items = items[:k] + [SliceV(None, None, None)] * fill + items[k + 1:]
    # advanced indexing?
    adv = [x for x in items if _is_adv(eng, st, x)]
    if adv:
        return advanced(eng, st, base, items, check)
    items += [SliceV(None, None, None)] * (len(shape) - len([x for x in items if x is not None and not (isinstance(x, Builtin) and x.name.endswith("newaxis"))]))
    # basic indexing: build a lens
    specs = []   # per base axis: ('fix', e) or ('map', lo, step, n, n_out)
    out_shape = []
    out_axes = []  # per out axis: base axis or None (newaxis)
    d = 0
    for x in items:
        if x is None or (isinstance(x, Builtin) and x.name.endswith("newaxis")):
            out_shape.append(1)
            out_axes.append(None)
            continue
        n = shape[d]
        if isinstance(x, SliceV):
            step = 1 if x.step is None else to_int(x.step)
            if step == 1:
                lo, hi = slice_bounds(x, n, eng, st)
                specs.append(("map", lo, 1, sub(hi, lo)))
                out_shape.append(sub(hi, lo))
            elif step == -1 and x.lo is None and x.hi is None:
                specs.append(("map", sub(n, 1), -1, n))
                out_shape.append(n)
            else:
                raise Unsupported("strided slice")
            out_axes.append(d)
        else:
            specs.append(("fix", norm_index(eng, st, x, n, check)))
        d += 1
    if d != len(shape):
        raise Unsupported("indexing arity")

    def to_base(*k):
        b = [None] * len(specs)
        for o, ax in enumerate(out_axes):
            if ax is None:
                continue
            _, lo, stp, _ = specs[ax]
            b[ax] = add(lo, k[o]) if stp == 1 else sub(lo, k[o])
        for ax, s in enumerate(specs):
            if s[0] == "fix":
                b[ax] = s[1]
        return tuple(b)

    def from_base(*b):
        c, out = True, []
        for ax, s in enumerate(specs):
            if s[0] == "fix":
                c = AND(c, EQ(b[ax], s[1]))
        for o, ax in enumerate(out_axes):
            if ax is None:
                out.append(0)
                continue
            _, lo, stp, n = specs[ax]
            k = sub(b[ax], lo) if stp == 1 else sub(lo, b[ax])
            c = AND(c, le(0, k), lt(k, n))
            out.append(k)
        return c, tuple(out)
    if not out_shape:
        a = eng.snap(st, base)
        return [(st, a.at(*to_base()))]
    if isinstance(base, A):
        tag = (lambda *k: base.tag(*to_base(*k))) if base.tag is not None else None
        return [(st, A(out_shape, lambda *k: base.get(*to_base(*k)), base.dtype, tag))]
    return [(st, Ref(base.rid, base.lens.compose(out_shape, to_base, from_base)))]


def _is_adv(eng, st, x):
    if isinstance(x, (Filt,)):
        return True
    if isinstance(x, IxV):
        return True
    if eng.is_array(st, x):
        return True
    if isinstance(x, Ref) and isinstance(st.heap[x.rid], (ListObj, SeqObj)):
        return True
    return isinstance(x, SeqObj)


class IxV:
    """np.ix_(u, v)"""

    def __init__(self, parts):
        self.parts = parts


def advanced(eng, st, base, items, check=True):
    a = eng.snap(st, base)
    if len(items) == 1 and isinstance(items[0], IxV):
        parts = items[0].parts
        for d, p in enumerate(parts):
            if check:
                eng.oblige(st, FA(1, lambda k: IMP(inr(k, 0, p.n), inr(p.get(k), 0, a.shape[d]))), "index in range", "bounds")
        return [(st, st.alloc(A([p.n for p in parts], lambda *k: a.get(*[p.get(x) for p, x in zip(parts, k)]), a.dtype)))]
    items = [(_arr_or_scalar(eng, st, x) if _is_adv(eng, st, x) and not isinstance(x, Filt) else x) for x in items]
    # boolean mask, 1-d base
    if len(items) == 1 and isinstance(items[0], A) and items[0].dtype == "b":
        m = items[0]
        if m.ndim == 1 and a.ndim == 1:
            if not _same(m.n, a.n):
                eng.oblige(st, EQ(m.n, a.n), "mask length agrees", "shape")
            f = Filt(lambda k: a.at(k), lambda k: V.to_bool(m.get(k)), a.n)
            return [(st, f)]
        if m.ndim == 1 and a.ndim == 2:
            if not _same(m.n, a.n):
                eng.oblige(st, EQ(m.n, a.n), "mask length agrees", "shape")
            F, cnt = enumerate_mask(eng, st, m.get, m.n)
            return [(st, st.alloc(A((cnt, a.shape[1]), lambda k, c: a.get(F(k), c), a.dtype,
                                    (lambda k, c: a.tag(F(k), c)) if a.tag is not None else None)))]
        raise Unsupported("mask of a matrix")
    if len(items) == 1 and isinstance(items[0], Filt):
        st, arr = materialize(eng, st, items[0])
        items = [eng.snap(st, arr)]
    if len(items) == 1:
        ix = items[0]
        if check:
            _bounds(eng, st, ix, a.shape[0])
        nd = ix.ndim
        tag = (lambda *k: a.tag(ix.get(*k[:nd]), *k[nd:])) if a.tag is not None else None
        return [(st, st.alloc(A(ix.shape + a.shape[1:], lambda *k: a.get(ix.get(*k[:nd]), *k[nd:]), a.dtype, tag)))]
    if len(items) == 2 and a.ndim == 2:
        x, y = items
        if isinstance(x, SliceV) and isinstance(y, A):
            lo, hi = slice_bounds(x, a.shape[0], eng, st)
            if y.dtype == "b":
                F, cnt = enumerate_mask(eng, st, y.get, y.n)
                return [(st, st.alloc(A((sub(hi, lo), cnt), lambda i, j: a.get(add(lo, i), F(j)), a.dtype)))]
            if check:
                _bounds(eng, st, y, a.shape[1])
            return [(st, st.alloc(A((sub(hi, lo),) + y.shape, lambda i, j: a.get(add(lo, i), y.get(j)), a.dtype)))]
        if isinstance(y, SliceV) and isinstance(x, A):
            lo, hi = slice_bounds(y, a.shape[1], eng, st)
            if x.dtype == "b":
                F, cnt = enumerate_mask(eng, st, x.get, x.n)
                return [(st, st.alloc(A((cnt, sub(hi, lo)), lambda i, j: a.get(F(i), add(lo, j)), a.dtype)))]
            if check:
                _bounds(eng, st, x, a.shape[0])
            return [(st, st.alloc(A(x.shape + (sub(hi, lo),), lambda i, j: a.get(x.get(i), add(lo, j)), a.dtype)))]
        if isinstance(x, A) and isinstance(y, A) and x.dtype == "i" and y.dtype == "i":
            if check:
                _bounds(eng, st, x, a.shape[0])
                _bounds(eng, st, y, a.shape[1])
            shape, gx, gy = broadcast(eng, st, x, y)
            return [(st, st.alloc(A(shape, lambda *k: a.get(gx(*k), gy(*k)), a.dtype)))]
        if isinstance(x, A) and is_scalar(y):
            y = norm_index(eng, st, y, a.shape[1], check)
            if check:
                _bounds(eng, st, x, a.shape[0])
            return [(st, st.alloc(A(x.shape, lambda *k: a.get(x.get(*k), y), a.dtype)))]
        if isinstance(y, A) and is_scalar(x):
            x = norm_index(eng, st, x, a.shape[0], check)
            if y.dtype == "b":
                return [(st, Filt(lambda k: a.get(x, k), lambda k: V.to_bool(y.get(k)), a.shape[1]))]
            if check:
                _bounds(eng, st, y, a.shape[1])
            return [(st, st.alloc(A(y.shape, lambda *k: a.get(x, y.get(*k)), a.dtype)))]
    raise Unsupported("advanced indexing")


def _bounds(eng, st, ix, n):
    nd = ix.ndim
    eng.oblige(st, FA(nd, lambda *k: IMP(AND(*[inr(x, 0, s) for x, s in zip(k, ix.shape)]),
                                         inr(ix.get(*k), 0, n))), "index in range", "bounds")


def _same(a, b):
    a, b = to_int(a), to_int(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b)


def enumerate_mask(eng, st, mask, n):
    """positions where mask holds, in increasing order: (F, count).  st is
    extended in place with the defining facts."""
    I = z3.IntSort()
    F = eng.fresh("enum", I, dom=(I,))
    R = eng.fresh("rank", I, dom=(I,))
    cnt = eng.fresh_int("cnt")
    st.pc.append(V.zb(AND(cnt >= 0, cnt <= V.zi(n))))
    st.pc.append(V.zb(FA(1, lambda k: IMP(inr(k, 0, cnt), AND(inr(F(k), 0, n), mask(F(k)), R(F(k)) == k)),
                         pats=lambda k: [F(k)])))
    st.pc.append(V.zb(FA(1, lambda i: IMP(AND(inr(i, 0, n), mask(i)), AND(inr(R(i), 0, cnt), F(R(i)) == i)),
                         pats=lambda i: [R(i)] + _pat(mask(i)))))
    st.pc.append(V.zb(FA(2, lambda k, l: IMP(AND(inr(k, 0, cnt), inr(l, 0, cnt), k < l), F(k) < F(l)),
                         pats=lambda k, l: [z3.MultiPattern(F(k), F(l))])))
    return F, cnt


def _pat(t):
    """usable extra trigger from a mask term, if it is a plain application"""
    t = V.ex(t)
    if isinstance(t, z3.ExprRef) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
        return [t]
    return []


def materialize(eng, st, f):
    F, cnt = enumerate_mask(eng, st, f.mask, f.n)
    v = f.src(z3.IntVal(0))
    tagged = isinstance(v, SI) and v.tag is not None
    a = A((cnt,), lambda k: ex(f.src(F(k))), "b" if is_boolish(v) else "i",
          (lambda k: f.src(F(k)).tag) if tagged else None)
    return st, st.alloc(a)


def filt_getitem(eng, st, f, idx):
    st = st.copy()
    st, a = materialize(eng, st, f)
    return getitem(eng, st, a, idx)


def setitem(eng, st, base, idx, v):
    items = list(idx) if isinstance(idx, tuple) else [idx]
    advs = [x for x in items if _is_adv(eng, st, x)]
    if not advs:
        view = getitem(eng, st, base, idx)[0][1]
        if not isinstance(view, (Ref, A)) or not eng.is_array(st, view):
            # single element
            shape = eng.shape(st, base)
            ks = [norm_index(eng, st, x, n) for x, n in zip(items, shape)]
            tag = None
            return [eng.write(st, base, lambda *k: AND(*[EQ(a, b) for a, b in zip(k, ks)]),
                              lambda *k: ex(v))]
        if is_scalar(v):
            return [eng.write(st, view, lambda *k: True, lambda *k: ex(v))]
        a = _arr_or_scalar(eng, st, v) if not isinstance(v, Filt) else None
        if a is None:
            raise Unsupported("store of a filtered array")
        vs = eng.shape(st, view)
        _, gv, ga = broadcast(eng, st, eng.snap(st, view), a)
        return [eng.write(st, view, lambda *k: True, ga)]
    items = [(_arr_or_scalar(eng, st, x) if _is_adv(eng, st, x) and not isinstance(x, (Filt, IxV)) else x) for x in items]
    shape = eng.shape(st, base)
    if len(items) == 1 and isinstance(items[0], A) and items[0].dtype == "b" and items[0].ndim == 1:
        m = items[0]
        if not _same(m.n, shape[0]):
            eng.oblige(st, EQ(m.n, shape[0]), "mask length agrees", "shape")
        if is_scalar(v):
            return [eng.write(st, base, lambda *k: m.get(k[0]), lambda *k: ex(v))]
        raise Unsupported("masked store of an array")
    if len(items) == 1 and isinstance(items[0], Filt):
        st, r = materialize(eng, st, items[0])
        items = [eng.snap(st, r)]
    if len(items) == 1 and isinstance(items[0], A) and items[0].ndim == 1 and is_scalar(v):
        ix = items[0]
        _bounds(eng, st, ix, shape[0])
        return [eng.write(st, base,
                          lambda *k: EXI(1, lambda q: AND(inr(q, 0, ix.n), EQ(ix.get(q), k[0]))),
                          lambda *k: ex(v))]
    raise Unsupported("advanced store")


def transpose(eng, st, v):
    sh = eng.shape(st, v)
    if len(sh) == 1:
        return v
    if len(sh) != 2:
        raise Unsupported("transpose")
    if isinstance(v, A):
        return A((sh[1], sh[0]), lambda i, j: v.get(j, i), v.dtype)
    return Ref(v.rid, v.lens.compose((sh[1], sh[0]), lambda i, j: (j, i), lambda a, b: (True, (b, a))))


# ------------------------------------------------------------ reductions etc.
def as_pred(v):
    return V.to_bool(v)


def q_all(eng, st, v):
    if isinstance(v, Filt):
        return FA(1, lambda k: IMP(AND(inr(k, 0, v.n), v.mask(k)), as_pred(v.src(k))))
    if isinstance(v, SeqObj):
        if isinstance(to_int(v.n), int):
            return AND(*[as_pred(v.get(k)) for k in range(to_int(v.n))])
        return FA(1, lambda k: IMP(inr(k, 0, v.n), as_pred(v.get(k))))
    a = _arr_or_scalar(eng, st, v)
    if not isinstance(a, A):
        return as_pred(a)
    return FA(a.ndim, lambda *k: IMP(AND(*[inr(x, 0, s) for x, s in zip(k, a.shape)]), as_pred(a.get(*k))))


def q_any(eng, st, v):
    if isinstance(v, Filt):
        return EXI(1, lambda k: AND(inr(k, 0, v.n), v.mask(k), as_pred(v.src(k))))
    if isinstance(v, SeqObj):
        if isinstance(to_int(v.n), int):
            return OR(*[as_pred(v.get(k)) for k in range(to_int(v.n))])
        return EXI(1, lambda k: AND(inr(k, 0, v.n), as_pred(v.get(k))))
    a = _arr_or_scalar(eng, st, v)
    if not isinstance(a, A):
        return as_pred(a)
    return EXI(a.ndim, lambda *k: AND(*[inr(x, 0, s) for x, s in zip(k, a.shape)], as_pred(a.get(*k))))


def _axis(kwargs, args, pos=1):
    ax = kwargs.get("axis", args[pos] if len(args) > pos else None)
    return None if ax is None else to_int(ax)


def m_all(eng, st, args, kwargs):
    return _red(eng, st, args, kwargs, q_all, "all")


def m_any(eng, st, args, kwargs):
    return _red(eng, st, args, kwargs, q_any, "any")


def _red(eng, st, args, kwargs, q, nm):
    ax = _axis(kwargs, args)
    v = args[0]
    if ax is None:
        return [(st, q(eng, st, v))]
    a = eng.snap(st, v)
    if a.ndim != 2 or ax not in (0, 1, -1):
        raise Unsupported("reduction axis")
    if ax == 0:
        f = lambda j: q(eng, st, A((a.shape[0],), lambda i: a.get(i, j), a.dtype))
        n = a.shape[1]
    else:
        f = lambda i: q(eng, st, A((a.shape[1],), lambda j: a.get(i, j), a.dtype))
        n = a.shape[0]
    return [(st, st.alloc(A((n,), lambda k: f(k), "b")))]


class CountV:
    """symbolic sum of a boolean / non-negative array: only its sign is known"""


def m_sum(eng, st, args, kwargs):
    ax = _axis(kwargs, args)
    v = args[0]
    if ax is not None:
        a = eng.snap(st, v)
        if a.ndim == 2 and a.dtype == "b" and ax == 0:
            # counts: known to be positive exactly when some entry holds
            c = eng.fresh("colsum", z3.IntSort(), dom=(z3.IntSort(),))
            st = st.copy()
            st.pc.append(V.zb(FA(1, lambda j: AND(c(j) >= 0, (c(j) > 0) == V.zb(
                EXI(1, lambda i: AND(inr(i, 0, a.shape[0]), a.get(i, j)))), c(j) <= V.zi(a.shape[0])))))
            return [(st, st.alloc(A((a.shape[1],), lambda j: c(j), "i")))]
        raise Unsupported("sum along an axis")
    if isinstance(v, Filt):
        raise Unsupported("sum of filtered array")
    a = _arr_or_scalar(eng, st, v)
    if a.ndim == 1 and isinstance(to_int(a.n), int):
        r = 0
        for k in range(to_int(a.n)):
            r = add(r, a.get(k))
        return [(st, r)]
    if a.dtype == "b" and a.ndim == 1:
        c = eng.fresh_int("count")
        st = st.copy()
        st.pc.append(V.zb(AND(c >= 0, c <= V.zi(a.n), (c > 0) == V.zb(q_any(eng, st, a)),
                              (c == V.zi(a.n)) == V.zb(q_all(eng, st, a)))))
        return [(st, c)]
    raise Unsupported("sum")


def m_astype(eng, st, v, args, kwargs):
    t = args[0] if args else kwargs.get("dtype")
    if isinstance(v, Filt):
        return [(st, v)]
    a = eng.snap(st, v)
    tb = is_bool_dtype(t)
    if tb and a.dtype != "b":
        return [(st, st.alloc(A(a.shape, lambda *k: NOT(EQ(a.get(*k), 0)), "b")))]
    if tb is False and a.dtype == "b":
        return [(st, st.alloc(A(a.shape, lambda *k: to_int(a.get(*k)), "i")))]
    return [(st, st.alloc(A(a.shape, a.get, a.dtype, a.tag)))]


def is_bool_dtype(t):
    if isinstance(t, Builtin):
        last = t.name.split(".")[-1].split(":")[-1]
        return last in ("bool", "bool_", "boolean")
    if isinstance(t, tuple) and t and t[0] == "dtype":
        return t[1] == "b"
    return False


def m_len(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Filt):
        st = st.copy()
        _, cnt = enumerate_mask(eng, st, v.mask, v.n)
        return [(st, cnt)]
    if eng.is_array(st, v):
        return [(st, eng.shape(st, v)[0])]
    if isinstance(v, (tuple, str)):
        return [(st, len(v))]
    if isinstance(v, SeqObj):
        return [(st, v.n)]
    if isinstance(v, Ref):
        o = st.heap[v.rid]
        if isinstance(o, ListObj):
            return [(st, len(o.items))]
        if isinstance(o, SeqObj):
            return [(st, o.n)]
    raise Unsupported("len")


def m_range(eng, st, args, kwargs):
    a = [to_int(x) for x in args]
    if len(a) == 1:
        lo, hi, step = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], 1
    else:
        lo, hi, step = a
    if isinstance(step, int) and step == 1:
        n = sub(hi, lo)
        if isinstance(n, int):
            n = max(n, 0)
            return [(st, IterV(n, lambda s, i: add(lo, i), concrete=[add(lo, k) for k in range(n)] if n <= 64 and isinstance(lo, int) else None))]
        return [(st, IterV(n, lambda s, i: add(lo, i)))]
    if isinstance(step, int) and step == -1:
        n = sub(lo, hi)
        if isinstance(n, int):
            n = max(n, 0)
        return [(st, IterV(n, lambda s, i: sub(lo, i)))]
    raise Unsupported("range step")


def m_enumerate(eng, st, args, kwargs):
    it = eng.iterate(args[0], st)
    start = to_int(kwargs.get("start", args[1] if len(args) > 1 else 0))
    return [(st, IterV(it.n, lambda s, i: (add(start, i), it.elem(s, i)),
                       concrete=None if it.concrete is None else [(add(start, k), x) for k, x in enumerate(it.concrete)]))]


def m_zip(eng, st, args, kwargs):
    its = [eng.iterate(a, st) for a in args]
    if all(i.concrete is not None for i in its):
        c = list(zip(*[i.concrete for i in its]))
        return [(st, IterV(len(c), lambda s, i: tuple(x.elem(s, i) for x in its), concrete=c))]
    n = its[0].n
    for other in its[1:]:
        if not _same(other.n, n):
            if eng.proves(st.pc, EQ(n, other.n), 1000):
                continue
            n = z3.If(V.zi(other.n) < V.zi(n), V.zi(other.n), V.zi(n))
    return [(st, IterV(n, lambda s, i: tuple(x.elem(s, i) for x in its)))]


def m_reversed(eng, st, args, kwargs):
    it = eng.iterate(args[0], st)
    if it.concrete is not None:
        return [(st, tuple(reversed(it.concrete)))]
    return [(st, IterV(it.n, lambda s, i: it.elem(s, sub(sub(it.n, 1), i))))]


def m_iter(eng, st, args, kwargs):
    return [(st, args[0])]


def m_tqdm(eng, st, args, kwargs):
    return [(st, args[0])]


def shape_of(eng, st, v):
    if isinstance(v, tuple):
        return v
    if is_scalar(v):
        return (v,)
    if isinstance(v, Ref) and isinstance(st.heap[v.rid], ListObj):
        return tuple(st.heap[v.rid].items)
    raise Unsupported("shape argument")


def m_full(val):
    def f(eng, st, args, kwargs):
        sh = shape_of(eng, st, args[0])
        dt = kwargs.get("dtype", args[1] if len(args) > 1 else None)
        isb = dt is not None and is_bool_dtype(dt)
        v = bool(val) if isb else int(val)
        return [(st, st.alloc(A(sh, lambda *k: v, "b" if isb else "i")))]
    return f


def m_npfull(eng, st, args, kwargs):
    sh = shape_of(eng, st, args[0])
    v = args[1] if len(args) > 1 else kwargs["fill_value"]
    return [(st, st.alloc(A(sh, lambda *k: ex(v), "b" if is_boolish(v) else "i")))]


def m_like(val):
    def f(eng, st, args, kwargs):
        a = eng.snap(st, args[0])
        dt = kwargs.get("dtype")
        isb = is_bool_dtype(dt) if dt is not None else a.dtype == "b"
        v = bool(val) if isb else int(val)
        return [(st, st.alloc(A(a.shape, lambda *k: v, "b" if isb else "i")))]
    return f


def m_empty(eng, st, args, kwargs):
    sh = shape_of(eng, st, args[0])
    dt = kwargs.get("dtype", args[1] if len(args) > 1 else None)
    isb = dt is not None and is_bool_dtype(dt)
    if len(sh) == 1 and isinstance(to_int(sh[0]), int) and to_int(sh[0]) == 0:
        return [(st, st.alloc(A(sh, lambda *k: False if isb else 0, "b" if isb else "i", (lambda *k: 0))))]
    st = st.copy()
    a = eng.fresh_arr("uninit", sh, "b" if isb else "i")
    return [(st, st.alloc(a))]


def m_empty_like(eng, st, args, kwargs):
    a = eng.snap(st, args[0])
    return m_empty(eng, st, [a.shape], {"dtype": ("dtype", a.dtype)})


def m_eye(eng, st, args, kwargs):
    n = args[0]
    dt = kwargs.get("dtype")
    isb = dt is not None and is_bool_dtype(dt)
    return [(st, st.alloc(A((n, n), (lambda i, j: EQ(i, j)) if isb else (lambda i, j: ITE(EQ(i, j), 1, 0)), "b" if isb else "i")))]


def m_arange(eng, st, args, kwargs):
    lo, hi = (0, args[0]) if len(args) == 1 else (to_int(args[0]), args[1])
    return [(st, st.alloc(A((sub(hi, lo),), lambda k: add(lo, k))))]


def m_copy(eng, st, v, args=(), kwargs=None):
    if eng.is_array(st, v):
        a = eng.snap(st, v)
        return [(st, st.alloc(A(a.shape, a.get, a.dtype, a.tag)))]
    if isinstance(v, Ref):
        o = st.heap[v.rid]
        if isinstance(o, ListObj):
            return [(st, st.alloc(ListObj(o.items)))]
        if isinstance(o, (SeqObj,)):
            return [(st, st.alloc(SeqObj(o.n, o.get, o.kind)))]
        if isinstance(o, DictObj):
            return [(st, st.alloc(DictObj(o.dom, o.val, o.ksort)))]
    raise Unsupported("copy")


def m_array(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Filt):
        st = st.copy()
        st, r = materialize(eng, st, v)
        return [(st, r)]
    if eng.is_array(st, v):
        return m_astype(eng, st, v, [kwargs["dtype"]] if "dtype" in kwargs else [None], {})
    items = None
    if isinstance(v, tuple):
        items = list(v)
    elif isinstance(v, Ref) and isinstance(st.heap[v.rid], ListObj):
        items = st.heap[v.rid].items
    elif isinstance(v, SeqObj) or (isinstance(v, Ref) and isinstance(st.heap[v.rid], SeqObj)):
        s = v if isinstance(v, SeqObj) else st.heap[v.rid]
        x = s.get(z3.IntVal(0))
        if is_scalar(x):
            return [(st, st.alloc(A((s.n,), lambda k: ex(s.get(k)), "b" if is_boolish(x) else "i",
                                    (lambda k: s.get(k).tag) if isinstance(x, SI) and x.tag is not None else None)))]
        if isinstance(x, A):
            return [(st, st.alloc(A((s.n,) + x.shape, lambda k, *r: s.get(k).get(*r), x.dtype)))]
    if items is not None:
        if all(is_scalar(x) for x in items):
            if not items:
                return [(st, st.alloc(A((0,), lambda k: 0)))]
            isb = all(is_boolish(x) for x in items)
            tags = [x.tag if isinstance(x, SI) else None for x in items]
            tag = (lambda k: eng.pick(tags)(k)) if all(t is not None for t in tags) else None
            return [(st, st.alloc(A((len(items),), lambda k: ex(eng.pick([ex(x) for x in items])(k)), "b" if isb else "i", tag)))]
        if all(eng.is_array(st, x) for x in items) and items:
            return m_stack(eng, st, [tuple(items)], {})
    raise Unsupported("np.array of this value")


def m_asarray(eng, st, args, kwargs):
    if eng.is_array(st, args[0]) and "dtype" not in kwargs:
        return [(st, args[0])]
    return m_array(eng, st, args, kwargs)


def _seq_items(eng, st, v):
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Ref) and isinstance(st.heap[v.rid], ListObj):
        return list(st.heap[v.rid].items)
    raise Unsupported("sequence of arrays")


def m_stack(eng, st, args, kwargs):
    items = [eng.snap(st, x) for x in _seq_items(eng, st, args[0])]
    ax = _axis(kwargs, args)
    if ax not in (None, 0):
        raise Unsupported("stack axis")

    def get(k, *r):
        return eng.pick([None] * 0)(k)

    def g(k, *r):
        k = to_int(k)
        if isinstance(k, int):
            return items[k].get(*r)
        v = items[-1].get(*r)
        for q in range(len(items) - 2, -1, -1):
            v = ITE(k == q, items[q].get(*r), v)
        return v
    return [(st, st.alloc(A((len(items),) + items[0].shape, g, items[0].dtype)))]


def m_concatenate(eng, st, args, kwargs, vs=False):
    raw = _seq_items(eng, st, args[0])
    ax = _axis(kwargs, args)
    if ax not in (None, 0):
        raise Unsupported("concatenate axis")
    st = st.copy()
    items = []
    for x in raw:
        if isinstance(x, Filt):
            st, x = materialize(eng, st, x)
        x = _arr_or_scalar(eng, st, x)
        if not isinstance(x, A):
            raise Unsupported("concatenate scalar")
        if vs and x.ndim == 1:
            x = A((1,) + x.shape, lambda i, *r, x=x: x.get(*r), x.dtype)
        items.append(x)
    nd = items[0].ndim
    for x in items[1:]:
        for d in range(1, nd):
            if not _same(x.shape[d], items[0].shape[d]):
                eng.oblige(st, EQ(x.shape[d], items[0].shape[d]), "operand shapes agree", "shape")
    offs = [0]
    for x in items:
        offs.append(add(offs[-1], x.shape[0]))

    def mk(sel):
        def g(k, *r):
            v = sel(items[-1])(sub(k, offs[-2]), *r)
            for q in range(len(items) - 2, -1, -1):
                v = ITE(lt(k, offs[q + 1]), sel(items[q])(sub(k, offs[q]), *r), v)
            return v
        return g
    nonempty = [x for x in items if not (isinstance(to_int(x.shape[0]), int) and to_int(x.shape[0]) == 0)]
    isb = all(x.dtype == "b" for x in items)
    tagged = all(x.tag is not None for x in items)
    get = mk(lambda x: (x.get if isb else (lambda *k: to_int(x.get(*k)))))
    tag = mk(lambda x: x.tag) if tagged else None
    if nd == 1 and not isb and not eng.ctx and len(raw) > 1 and any(isinstance(x, Ref) and not isinstance(to_int(x.lens.shape[0]), int) for x in raw):
        # name the result: R(k) = get(k), and the inverse facts for slices
        R = eng.fresh("cat", z3.IntSort(), dom=(z3.IntSort(),))
        st.pc.append(V.zb(FA(1, lambda k: IMP(inr(k, 0, offs[-1]), R(k) == V.zi(get(k))), pats=lambda k: [R(k)])))
        for q, x in enumerate(items):
            m = to_int(x.shape[0])
            if isinstance(m, int) and m <= 3:
                st.pc += [R(add(offs[q], j)) == V.zi(x.get(j)) for j in range(m)]
        for q, x in enumerate(raw):
            if not isinstance(x, Ref):
                continue
            root = st.heap[x.rid]
            probe = root.get(z3.Int("probe"))
            if root.ndim != 1 or not (isinstance(ex(probe), z3.ExprRef) and z3.is_app(ex(probe)) and ex(probe).decl().kind() == z3.Z3_OP_UNINTERPRETED
                                    and any(c.eq(z3.Int("probe")) for c in ex(probe).children())):
                continue

            def inv(m, q=q, x=x):
                c, o = x.lens.from_base(m)
                return IMP(AND(inr(m, 0, root.n), c), ex(root.get(m)) == R(add(offs[q], o[0])))
            st.pc.append(V.zb(FA(1, inv, pats=lambda m: [ex(root.get(m))])))
        get = lambda k: R(k)
        if tagged:
            T = eng.fresh("cat_tag", z3.IntSort(), dom=(z3.IntSort(),))
            t0 = tag
            st.pc.append(V.zb(FA(1, lambda k: IMP(inr(k, 0, offs[-1]), T(k) == V.zi(t0(k))), pats=lambda k: [T(k)])))
            tag = lambda k: T(k)
    return [(st, st.alloc(A((offs[-1],) + items[0].shape[1:], get, "b" if isb else "i", tag)))]


def m_vstack(eng, st, args, kwargs):
    return m_concatenate(eng, st, args, kwargs, vs=True)


def m_flipud(eng, st, args, kwargs):
    return getitem(eng, st, args[0], SliceV(None, None, -1))


def perm_axioms(eng, st, n, nm):
    I = z3.IntSort()
    p = eng.fresh(nm, I, dom=(I,))
    q = eng.fresh(nm + "inv", I, dom=(I,))
    st.pc.append(V.zb(FA(1, lambda k: IMP(inr(k, 0, n), AND(inr(p(k), 0, n), q(p(k)) == k)), pats=lambda k: [p(k)])))
    st.pc.append(V.zb(FA(1, lambda k: IMP(inr(k, 0, n), AND(inr(q(k), 0, n), p(q(k)) == k)), pats=lambda k: [q(k)])))
    return p, q


def m_argsort(eng, st, args, kwargs):
    a = eng.snap(st, args[0])
    if a.ndim != 1:
        raise Unsupported("argsort of a matrix")
    st = st.copy()
    p, q = perm_axioms(eng, st, a.n, "argsort")
    st.pc.append(V.zb(FA(2, lambda k, l: IMP(AND(inr(k, 0, a.n), inr(l, 0, a.n), k < l), to_int(a.get(p(k))) <= to_int(a.get(p(l)))),
                         pats=lambda k, l: [z3.MultiPattern(p(k), p(l))])))
    kind = kwargs.get("kind")
    if kind in ("stable", "mergesort"):
        st.pc.append(V.zb(FA(2, lambda k, l: IMP(AND(inr(k, 0, a.n), inr(l, 0, a.n), k < l, EQ(a.get(p(k)), a.get(p(l)))), p(k) < p(l)))))
    return [(st, st.alloc(A((a.n,), lambda k: p(k))))]


def m_sort(eng, st, args, kwargs):
    v = args[0]
    a = eng.snap(st, v)
    (st, pr), = m_argsort(eng, st, args, kwargs)
    p = eng.snap(st, pr)
    tag = (lambda k: a.tag(p.get(k))) if a.tag is not None else None
    return [(st, st.alloc(A((a.n,), lambda k: a.get(p.get(k)), a.dtype, tag)))]


def meth_sort(eng, st, v, args, kwargs):
    (st, r), = m_sort(eng, st, [v], kwargs)
    a = eng.snap(st, r)
    return [(eng.write(st, v, lambda *k: True, a.get), None)]


def m_flatnonzero(eng, st, args, kwargs):
    v = args[0]
    if isinstance(v, Filt):
        raise Unsupported("flatnonzero of a filtered array")
    a = _arr_or_scalar(eng, st, v)
    if a.ndim != 1:
        raise Unsupported("flatnonzero of a matrix")
    # kept lazy: the filtered index array
    return [(st, Filt(lambda k: k, lambda k: V.to_bool(a.get(k)), a.n))]


def m_where(eng, st, args, kwargs):
    if len(args) == 1:
        (st, r), = m_flatnonzero(eng, st, args, kwargs)
        return [(st, (r,))]
    c, x, y = [_arr_or_scalar(eng, st, v) for v in args]
    if not isinstance(c, A):
        raise Unsupported("np.where scalar condition")
    sh, gx, gc = broadcast(eng, st, x, c) if isinstance(x, A) else (c.shape, lambda *k: x, c.get)
    gy = y.get if isinstance(y, A) else (lambda *k: y)
    return [(st, st.alloc(A(sh, lambda *k: ITE(gc(*k), gx(*k), gy(*k)))))]


def m_unique(eng, st, args, kwargs):
    if kwargs.get("axis") is not None:
        raise Unsupported("unique along an axis")
    v = args[0]
    if isinstance(v, Filt):
        n, mask, src = v.n, v.mask, lambda k: ex(v.src(k))
    else:
        a = _arr_or_scalar(eng, st, v)
        if a.ndim != 1:
            raise Unsupported("unique of a matrix")
        n, mask, src = a.n, (lambda k: True), a.get
    st = st.copy()
    I = z3.IntSort()
    c = eng.fresh_int("ucount")
    U = eng.fresh("uniq", I, dom=(I,))
    W = eng.fresh("ufirst", I, dom=(I,))      # first occurrence of the k-th value
    R = eng.fresh("uinv", I, dom=(I,))        # class of element i
    st.pc.append(V.zb(AND(c >= 0, c <= V.zi(n))))
    st.pc.append(V.zb(FA(1, lambda k: IMP(inr(k, 0, c), AND(inr(W(k), 0, n), mask(W(k)), EQ(src(W(k)), U(k)), R(W(k)) == k)),
                         pats=lambda k: [U(k), W(k)])))
    st.pc.append(V.zb(FA(2, lambda k, l: IMP(AND(inr(k, 0, c), inr(l, 0, c), k < l), U(k) < U(l)),
                         pats=lambda k, l: [z3.MultiPattern(U(k), U(l))])))
    st.pc.append(V.zb(FA(1, lambda i: IMP(AND(inr(i, 0, n), mask(i)), AND(inr(R(i), 0, c), EQ(U(R(i)), src(i)), W(R(i)) <= i)),
                         pats=lambda i: [R(i)])))
    # derived facts stated over the elements directly (cardinality view)
    pair = lambda f: FA(2, lambda i, j: IMP(AND(inr(i, 0, n), inr(j, 0, n), mask(i), mask(j), i < j), f(i, j)))
    st.pc.append(V.zb((c <= 1) == V.zb(pair(lambda i, j: EQ(src(i), src(j))))))
    if not isinstance(v, Filt):
        st.pc.append(V.zb((c == V.zi(n)) == V.zb(pair(lambda i, j: NOT(EQ(src(i), src(j)))))))
    st.pc.append(V.zb((c == 0) == V.zb(FA(1, lambda i: NOT(AND(inr(i, 0, n), mask(i)))))))
    u = st.alloc(A((c,), lambda k: U(k)))
    outs = [u]
    if kwargs.get("return_index"):
        outs.append(st.alloc(A((c,), lambda k: W(k))))
    if kwargs.get("return_inverse"):
        if isinstance(v, Filt):
            raise Unsupported("unique inverse of a filtered array")
        outs.append(st.alloc(A((n,), lambda k: R(k))))
    return [(st, outs[0] if len(outs) == 1 else tuple(outs))]


def m_array_equal(eng, st, args, kwargs):
    a, b = args
    if isinstance(a, Filt) and isinstance(b, Filt) and same_mask(eng, a, b):
        return [(st, FA(1, lambda k: IMP(AND(inr(k, 0, a.n), a.mask(k)), EQ(a.src(k), b.src(k)))))]
    if isinstance(a, Filt):
        st = st.copy()
        st, a = materialize(eng, st, a)
    if isinstance(b, Filt):
        st = st.copy()
        st, b = materialize(eng, st, b)
    a, b = _arr_or_scalar(eng, st, a), _arr_or_scalar(eng, st, b)
    if not isinstance(a, A) and not isinstance(b, A):
        if (is_sym(a) or isinstance(a, (int, bool))) and (is_sym(b) or isinstance(b, (int, bool))):
            return [(st, EQ(a, b))]
        raise Unsupported("array_equal of scalars")
    if not isinstance(a, A) or not isinstance(b, A):
        return [(st, False)]
    if a.ndim != b.ndim:
        return [(st, False)]
    same = AND(*[EQ(x, y) for x, y in zip(a.shape, b.shape)])
    if all(isinstance(to_int(x), int) for x in a.shape) and a.ndim == 1 and to_int(a.n) <= 4:
        body = AND(*[EQ(a.get(k), b.get(k)) for k in range(to_int(a.n))])
    else:
        body = FA(a.ndim, lambda *k: IMP(AND(*[inr(x, 0, s) for x, s in zip(k, a.shape)]), EQ(a.get(*k), b.get(*k))))
    return [(st, AND(same, body))]


def m_binary(op, conv=None):
    def f(eng, st, args, kwargs):
        a, b = args[:2]
        if op in LOG:
            a, b = _boolify(eng, st, a), _boolify(eng, st, b)
        if not (eng.is_array(st, a) or eng.is_array(st, b) or isinstance(a, Filt) or isinstance(b, Filt)):
            fn, _ = _bop(op, is_boolish(a), is_boolish(b))
            return [(st, fn(a, b))]
        r = elementwise(eng, st, op, a, b)
        if "out" in kwargs:
            s = eng.snap(st, r)
            return [(eng.write(st, kwargs["out"], lambda *k: True, s.get), kwargs["out"])]
        return [(st, r)]
    return f


def _boolify(eng, st, v):
    if isinstance(v, Filt):
        return Filt(lambda k: V.to_bool(v.src(k)), v.mask, v.n)
    if eng.is_array(st, v):
        a = eng.snap(st, v)
        return A(a.shape, lambda *k: V.to_bool(a.get(*k)), "b")
    return V.to_bool(v)


def m_logical_not(eng, st, args, kwargs):
    v = _boolify(eng, st, args[0])
    if isinstance(v, A):
        return [(st, st.alloc(A(v.shape, lambda *k: NOT(v.get(*k)), "b")))]
    if isinstance(v, Filt):
        return [(st, Filt(lambda k: NOT(v.src(k)), v.mask, v.n))]
    return [(st, NOT(v))]


def m_minimum(eng, st, args, kwargs, mx=False):
    a, b = [_arr_or_scalar(eng, st, x) for x in args[:2]]
    pick = (lambda x, y: ITE(to_int(x) >= to_int(y), to_int(x), to_int(y))) if mx else \
        (lambda x, y: ITE(to_int(x) <= to_int(y), to_int(x), to_int(y)))
    if not isinstance(a, A) and not isinstance(b, A):
        return [(st, pick(a, b))]
    sh, ga, gb = broadcast(eng, st, a, b)
    r = A(sh, lambda *k: pick(ga(*k), gb(*k)))
    if "out" in kwargs:
        return [(eng.write(st, kwargs["out"], lambda *k: True, r.get), kwargs["out"])]
    return [(st, st.alloc(r))]


def m_maximum(eng, st, args, kwargs):
    return m_minimum(eng, st, args, kwargs, mx=True)


def m_take(eng, st, args, kwargs):
    a = eng.snap(st, args[0])
    ix = _arr_or_scalar(eng, st, args[1])
    ax = _axis(kwargs, args, 2)
    if ax is None and a.ndim == 1:
        ax = 0
    if not isinstance(ix, A):
        raise Unsupported("take scalar")
    nd = ix.ndim
    if ax == 0:
        _bounds(eng, st, ix, a.shape[0])
        return [(st, st.alloc(A(ix.shape + a.shape[1:], lambda *k: a.get(ix.get(*k[:nd]), *k[nd:]), a.dtype)))]
    if ax == 1 and a.ndim == 2:
        _bounds(eng, st, ix, a.shape[1])
        return [(st, st.alloc(A((a.shape[0],) + ix.shape, lambda i, *k: a.get(i, ix.get(*k)), a.dtype)))]
    raise Unsupported("take axis")


def m_triu(eng, st, args, kwargs):
    a = eng.snap(st, args[0])
    kk = to_int(kwargs.get("k", args[1] if len(args) > 1 else 0))
    z = False if a.dtype == "b" else 0
    return [(st, st.alloc(A(a.shape, lambda i, j: ITE(sub(j, i) >= kk, a.get(i, j), z), a.dtype)))]


def m_pad(eng, st, args, kwargs):
    a = eng.snap(st, args[0])
    w = args[1]
    if not (isinstance(w, tuple) and len(w) == a.ndim and all(isinstance(x, tuple) and len(x) == 2 for x in w)):
        raise Unsupported("pad widths")
    w = [(to_int(x), to_int(y)) for x, y in w]
    sh = [add(add(n, lo), hi) for n, (lo, hi) in zip(a.shape, w)]

    def g(*k):
        inside = AND(*[AND(le(lo, x), lt(x, add(n, lo))) for x, n, (lo, hi) in zip(k, a.shape, w)])
        return ITE(inside, a.get(*[sub(x, lo) for x, (lo, hi) in zip(k, w)]), 0)
    return [(st, st.alloc(A(sh, g, a.dtype)))]


def m_expand_dims(eng, st, args, kwargs):
    a = eng.snap(st, args[0])
    ax = to_int(kwargs.get("axis", args[1] if len(args) > 1 else None))
    if ax == 0:
        return getitem(eng, st, args[0], (None,))
    if ax == 1:
        return getitem(eng, st, args[0], (SliceV(None, None, None), None))
    raise Unsupported("expand_dims axis")


def m_reshape(eng, st, v, args, kwargs):
    sh = args[0] if len(args) == 1 else tuple(args)
    sh = shape_of(eng, st, sh)
    a = eng.snap(st, v)
    sh = [to_int(x) for x in sh]
    # (1,) + shape
    if len(sh) == a.ndim + 1 and isinstance(sh[0], int) and sh[0] == 1 and all(_same(x, y) for x, y in zip(sh[1:], a.shape)):
        return getitem(eng, st, v, (None,))
    # merge the two leading axes:  (-1, *shape[2:])
    if len(sh) == a.ndim - 1 and isinstance(sh[0], int) and sh[0] == -1 and all(_same(x, y) for x, y in zip(sh[1:], a.shape[2:])):
        n1 = to_int(a.shape[1])
        tot = to_int(a.shape[0]) * n1
        if isinstance(n1, int) and n1 == 0:
            raise Unsupported("reshape with an empty axis")
        dv = (lambda k: (to_int(k) / n1, to_int(k) % n1)) if not isinstance(n1, int) else \
            (lambda k: (to_int(k) / n1 if not isinstance(k, int) else k // n1, to_int(k) % n1))
        return [(st, st.alloc(A((tot,) + tuple(a.shape[2:]), lambda k, *r: a.get(*dv(k), *r), a.dtype)))]
    raise Unsupported("reshape")


def m_isinstance(eng, st, args, kwargs):
    v, t = args
    names = [x.name.split(".")[-1] for x in (t if isinstance(t, tuple) else (t,)) if isinstance(x, Builtin)]
    if eng.is_array(st, v):
        return [(st, "ndarray" in names)]
    if isinstance(v, str):
        return [(st, "str" in names)]
    if v is None:
        return [(st, False)]
    raise Unsupported("isinstance")


def m_identity(eng, st, args, kwargs):
    return [(st, args[0])]


def m_int(eng, st, args, kwargs):
    return [(st, to_int(args[0]))]


def m_bool(eng, st, args, kwargs):
    return [(st, eng.truth(st, args[0]))]


def m_min(mx):
    def f(eng, st, args, kwargs):
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Filt) or kwargs:
                raise Unsupported("min/max of this value")
            a = _arr_or_scalar(eng, st, v)
            if a.ndim != 1:
                raise Unsupported("min/max of a matrix")
            st = st.copy()
            m = eng.fresh_int("extr")
            w = eng.fresh_int("extrpos")
            eng.oblige(st, to_int(a.n) > 0, "min/max of a non-empty sequence", "bounds")
            cmp = (lambda x: x <= m) if mx else (lambda x: x >= m)
            st.pc.append(V.zb(AND(inr(w, 0, a.n), EQ(a.get(w), m), FA(1, lambda k: IMP(inr(k, 0, a.n), cmp(V.zi(a.get(k))))))))
            return [(st, m)]
        r = args[0]
        for x in args[1:]:
            if not is_scalar(r) or not is_scalar(x):
                raise Unsupported("min of structured values")
            r = ITE((to_int(x) > to_int(r)) if mx else (to_int(x) < to_int(r)), to_int(x), to_int(r))
        return [(st, r)]
    return f


def m_tuple(eng, st, args, kwargs):
    if not args:
        return [(st, ())]
    v = args[0]
    if isinstance(v, tuple):
        return [(st, v)]
    if isinstance(v, SeqObj):
        return [(st, SeqObj(v.n, v.get, "tuple"))]
    if eng.is_array(st, v):
        a = eng.snap(st, v)
        if a.ndim == 1:
            if isinstance(to_int(a.n), int):
                return [(st, tuple(a.at(k) for k in range(to_int(a.n))))]
            return [(st, SeqObj(a.n, lambda k: a.at(k), "tuple"))]
    it = eng.iterate(v, st)
    if it.concrete is not None:
        return [(st, tuple(it.concrete))]
    s0 = st
    return [(st, SeqObj(it.n, lambda k: it.elem(s0, k), "tuple"))]


def m_list(eng, st, args, kwargs):
    if not args:
        return [(st, st.alloc(ListObj([])))]
    (st, t), = m_tuple(eng, st, args, kwargs)
    if isinstance(t, tuple):
        return [(st, st.alloc(ListObj(t)))]
    return [(st, st.alloc(SeqObj(t.n, t.get, "list")))]


def m_ix(eng, st, args, kwargs):
    st = st.copy()
    parts = []
    for a in args:
        if isinstance(a, Filt):
            st, a = materialize(eng, st, a)
        parts.append(_arr_or_scalar(eng, st, a))
    return [(st, IxV(parts))]


def m_nonzero_any(eng, st, args, kwargs):
    raise Unsupported("nonzero")


def m_dict(eng, st, args, kwargs):
    if args or kwargs:
        raise Unsupported("dict(...)")
    return [(st, st.alloc(DictObj(lambda k: False, lambda k: None)))]


def meth_append(eng, st, v, args, kwargs):
    if isinstance(v, Ref):
        o = st.heap[v.rid]
        st = st.copy()
        if isinstance(o, ListObj):
            st.heap[v.rid] = ListObj(o.items + [args[0]])
            return [(st, None)]
        if isinstance(o, SeqObj):
            x = args[0]
            n0 = V.zi(o.n)
            if is_scalar(x):
                st.heap[v.rid] = SeqObj(n0 + 1, lambda k: ITE(EQ(k, n0), ex(x), ex(o.get(k))), o.kind)
                return [(st, None)]
    raise Unsupported("append")


def meth_tolist(eng, st, v, args, kwargs):
    a = eng.snap(st, v)
    if a.ndim == 1:
        if isinstance(to_int(a.n), int):
            return [(st, st.alloc(ListObj([a.at(k) for k in range(to_int(a.n))])))]
        return [(st, st.alloc(SeqObj(a.n, lambda k: a.at(k), "list")))]
    raise Unsupported("tolist of a matrix")


def meth_item(eng, st, v, args, kwargs):
    return [(st, v)]


def m_setdiff(eng, st, args, kwargs):
    raise Unsupported("setdiff1d")


def meth_size_filt(eng, st, f):
    st = st.copy()
    _, cnt = enumerate_mask(eng, st, f.mask, f.n)
    return st, cnt


def m_count_nonzero(eng, st, args, kwargs):
    v = args[0]
    a = _boolify(eng, st, v)
    if isinstance(a, A) and a.ndim == 1:
        return m_sum(eng, st, [a], {})
    raise Unsupported("count_nonzero")


LIB = {
    "len": m_len, "range": m_range, "enumerate": m_enumerate, "zip": m_zip, "reversed": m_reversed,
    "iter": m_iter, "tqdm.tqdm": m_tqdm, "int": m_int, "bool": m_bool, "min": m_min(False), "max": m_min(True),
    "tuple": m_tuple, "list": m_list, "isinstance": m_isinstance, "any": m_any, "all": m_all, "sum": m_sum,
    "sorted": lambda e, s, a, k: (_ for _ in ()).throw(Unsupported("sorted")),
    "dict": m_dict,
    "numpy.all": m_all, "numpy.any": m_any, "numpy.sum": m_sum,
    "numpy.zeros": m_full(0), "numpy.ones": m_full(1), "numpy.empty": m_empty, "numpy.eye": m_eye, "numpy.full": m_npfull,
    "numpy.zeros_like": m_like(0), "numpy.ones_like": m_like(1), "numpy.empty_like": m_empty_like,
    "numpy.arange": m_arange, "numpy.array": m_array, "numpy.asarray": m_asarray, "numpy.copy": lambda e, s, a, k: m_copy(e, s, a[0]),
    "numpy.concatenate": m_concatenate, "numpy.hstack": m_concatenate, "numpy.vstack": m_vstack, "numpy.flipud": m_flipud, "numpy.flip": m_flipud,
    "numpy.argsort": m_argsort, "numpy.sort": m_sort, "numpy.flatnonzero": m_flatnonzero, "numpy.where": m_where,
    "numpy.unique": m_unique, "numpy.array_equal": m_array_equal,
    "numpy.logical_and": m_binary("and"), "numpy.logical_or": m_binary("or"), "numpy.logical_xor": m_binary("xor"),
    "numpy.logical_not": m_logical_not, "numpy.invert": m_logical_not,
    "numpy.subtract": m_binary("Sub"), "numpy.add": m_binary("Add"), "numpy.multiply": m_binary("Mult"),
    "numpy.greater_equal": m_binary("GtE"), "numpy.greater": m_binary("Gt"), "numpy.less": m_binary("Lt"),
    "numpy.less_equal": m_binary("LtE"), "numpy.equal": m_binary("Eq"), "numpy.not_equal": m_binary("NotEq"),
    "numpy.bitwise_or": m_binary("BitOr"), "numpy.bitwise_and": m_binary("BitAnd"),
    "numpy.minimum": m_minimum, "numpy.maximum": m_maximum, "numpy.take": m_take, "numpy.triu": m_triu, "numpy.pad": m_pad,
    "numpy.expand_dims": m_expand_dims, "numpy.ix_": m_ix, "numpy.transpose": lambda e, s, a, k: [(s, transpose(e, s, a[0]))],
    "numpy.count_nonzero": m_count_nonzero, "numpy.reshape": lambda e, s, a, k: m_reshape(e, s, a[0], a[1:], k),
    "numpy.stack": m_stack, "numpy.ascontiguousarray": m_asarray,
    "numpy.intc": m_int, "numpy.uint8": m_int, "numpy.int64": m_int,
}


def _meth(f):
    return lambda eng, st, v, args, kwargs: f(eng, st, [v] + list(args), kwargs)


METHODS = {
    "all": _meth(m_all), "any": _meth(m_any), "sum": _meth(m_sum), "copy": m_copy, "astype": m_astype,
    "append": meth_append, "tolist": meth_tolist, "reshape": m_reshape, "item": meth_item, "sort": meth_sort,
    "max": _meth(m_min(True)), "min": _meth(m_min(False)), "take": _meth(m_take), "flatten": m_copy, "ravel": m_copy,
    "transpose": lambda e, s, v, a, k: [(s, transpose(e, s, v))],
    "argsort": _meth(m_argsort),
}
