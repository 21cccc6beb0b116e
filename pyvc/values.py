"""Symbolic values of the verification-condition generator.

Scalars are Python ints/bools (concrete) or z3 Int/Bool terms, the latter
optionally wrapped in `SI` together with a ghost *provenance tag* (the position
of the element in the array it was originally read from).  Arrays are snapshots
`A(shape, get, tag, dtype)`; a mutable array lives in the heap of a `State` and
is accessed through `Ref(rid, lens)`, the lens being the numpy view (slice,
transpose, flip, row) that the reference denotes.
"""
import itertools
import z3

_uid = itertools.count()


class Unsupported(Exception):
    """The construct is outside the verified subset: nothing is claimed."""


class PoisonRead(Exception):
    def __init__(self, name):
        self.name = name


class Poison:
    def __init__(self, name):
        self.name = name


class SI:
    """scalar term with provenance tag"""
    __slots__ = ("e", "tag")

    def __init__(self, e, tag=None):
        self.e, self.tag = e, tag


def ex(v):
    """unwrap a scalar to a python int/bool or a z3 term"""
    if isinstance(v, SI):
        return v.e
    return v


def is_sym(v):
    return isinstance(v, (z3.ExprRef, SI))


def is_boolish(v):
    v = ex(v)
    return isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v))


def to_bool(v):
    """truth value as python bool or z3 Bool"""
    v = ex(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v != 0
    if v is None:
        return False
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v):
            return v
        if z3.is_arith(v):
            return v != 0
    raise Unsupported(f"truth value of {type(v).__name__}")


def to_int(v):
    v = ex(v)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, float) and v == int(v):
        return int(v)
    if isinstance(v, z3.ExprRef):
        if z3.is_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v
    raise Unsupported(f"integer value of {type(v).__name__}")


def zb(v):
    v = to_bool(v)
    return z3.BoolVal(v) if isinstance(v, bool) else v


def zi(v):
    v = to_int(v)
    return z3.IntVal(v) if isinstance(v, int) else v


def AND(*xs):
    out = []
    for x in xs:
        x = to_bool(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        x = to_bool(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    x = to_bool(x)
    return (not x) if isinstance(x, bool) else z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def EQ(a, b):
    a, b = ex(a), ex(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    ba, bb = is_boolish(a), is_boolish(b)
    if ba and bb:
        return zb(a) == zb(b)
    if ba or bb:
        p, c = (a, b) if ba else (b, a)
        if isinstance(c, int):
            return zb(p) if c == 1 else (NOT(p) if c == 0 else False)
        return zi(a) == zi(b)
    return a == b


def ITE(c, a, b):
    c = to_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    a, b = ex(a), ex(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and type(a) is type(b) and a == b:
        return a
    if is_boolish(a) and is_boolish(b):
        return z3.If(c, zb(a), zb(b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        return z3.If(c, a, b)
    return z3.If(c, zi(a), zi(b))


def add(a, b):
    a, b = to_int(a), to_int(b)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return a + b


def sub(a, b):
    a, b = to_int(a), to_int(b)
    if isinstance(b, int) and b == 0:
        return a
    return a - b


_qn = itertools.count()


# concrete evaluation of contracts: quantifiers range over -1..CONCRETE
CONCRETE = None


def _ground(n, f):
    for k in itertools.product(range(-1, CONCRETE + 1), repeat=n):
        b = to_bool(f(*k))
        if not isinstance(b, bool):
            b = z3.simplify(b)
            if z3.is_true(b):
                b = True
            elif z3.is_false(b):
                b = False
            else:
                raise Unsupported("not ground")
        yield b


def FA(n, f, names=None, pats=None):
    """forall n fresh ints"""
    if CONCRETE is not None:
        return all(_ground(n, f))
    vs = [z3.Int(f"q{next(_qn)}") for _ in range(n)]
    body = to_bool(f(*vs))
    if isinstance(body, bool):
        return body
    if pats is not None:
        ps = pats(*vs)
        return z3.ForAll(vs, body, patterns=ps)
    return z3.ForAll(vs, body)


def EXI(n, f):
    if CONCRETE is not None:
        return any(_ground(n, f))
    vs = [z3.Int(f"q{next(_qn)}") for _ in range(n)]
    body = to_bool(f(*vs))
    if isinstance(body, bool):
        return body
    return z3.Exists(vs, body)


def inr(i, lo, hi):
    """lo <= i < hi"""
    return AND(le(lo, i), lt(i, hi))


def le(a, b):
    return to_int(a) <= to_int(b)


def lt(a, b):
    return to_int(a) < to_int(b)


class A:
    """immutable array snapshot"""
    __slots__ = ("shape", "get", "tag", "dtype", "meta")

    def __init__(self, shape, get, dtype="i", tag=None, meta=None):
        self.shape = tuple(shape)
        self.get = get
        self.dtype = dtype
        self.tag = tag
        self.meta = meta

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def n(self):
        return self.shape[0]

    def at(self, *idx):
        v = self.get(*idx)
        if self.tag is not None:
            return SI(ex(v), self.tag(*idx))
        return v


class Upd(A):
    """array equal to `base` except where cond(idx), there val(idx)"""
    __slots__ = ("base", "cond", "val")

    def __init__(self, base, cond, val, tagval=None):
        self.base, self.cond, self.val = base, cond, val
        get = lambda *k: ITE(cond(*k), val(*k), base.get(*k))
        tag = None
        super().__init__(base.shape, get, base.dtype, tag)


class Filt:
    """a[mask]: the elements of a 1-d array where mask holds, in order"""
    __slots__ = ("src", "mask", "n")

    def __init__(self, src, mask, n):
        self.src, self.mask, self.n = src, mask, n  # closures of one index


class Lens:
    """numpy basic-indexing view"""

    def __init__(self, shape, to_base, from_base):
        self.shape, self.to_base, self.from_base = tuple(shape), to_base, from_base

    @staticmethod
    def identity(shape):
        return Lens(shape, lambda *k: k, lambda *b: (True, b))

    def compose(self, inner_shape, to_mid, from_mid):
        """self maps mid->base ; the new one maps out->mid"""
        return Lens(inner_shape,
                    lambda *k: self.to_base(*to_mid(*k)),
                    lambda *b: self._fb(b, from_mid))

    def _fb(self, b, from_mid):
        c, mid = self.from_base(*b)
        c2, out = from_mid(*mid)
        return AND(c, c2), out


class Ref:
    __slots__ = ("rid", "lens")

    def __init__(self, rid, lens=None):
        self.rid, self.lens = rid, lens

    def __repr__(self):
        return f"Ref({self.rid})"


class ListObj:
    """mutable python list with concrete length"""

    def __init__(self, items):
        self.items = list(items)


class SeqObj:
    """sequence of symbolic length; get(i) -> value"""

    def __init__(self, n, get, kind="list"):
        self.n, self.get, self.kind = n, get, kind


class ObjRec:
    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class DictObj:
    """symbolic map.  dom(k)->Bool, val(k)->value, keys are z3 terms of one sort
    or ints; `order` unmodelled"""

    def __init__(self, dom, val, ksort=None):
        self.dom, self.val, self.ksort = dom, val, ksort


class Func:
    """function value: AST + module, or a lambda with closure"""

    def __init__(self, node, module, env=None, self_val=None, name=None):
        self.node, self.module, self.env, self.self_val = node, module, env, self_val
        self.name = name or getattr(node, "name", "<lambda>")


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Builtin({self.name})"


class Bound:
    """method of a value: (value, method name)"""

    def __init__(self, val, name):
        self.val, self.name = val, name


class IterV:
    """iterable: n (int or z3), elem(state, i)->value"""

    def __init__(self, n, elem, concrete=None):
        self.n, self.elem, self.concrete = n, elem, concrete


class SliceV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class State:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.pc = pc if pc is not None else []

    def copy(self):
        return State(dict(self.env), dict(self.heap), list(self.pc))

    def assume(self, c):
        c = to_bool(c)
        if c is True:
            return self
        st = self.copy()
        st.pc.append(z3.BoolVal(False) if c is False else c)
        return st

    def alloc(self, obj):
        rid = next(_uid)
        self.heap[rid] = obj
        if isinstance(obj, A):
            return Ref(rid, Lens.identity(obj.shape))
        return Ref(rid)
