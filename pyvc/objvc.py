"""Verification conditions for methods over dictionaries, sets and object state.

Second front end of pyvc, for the code that keeps the *stated program* (dicts
from moments to numbers, held in attributes of InflationSDP / InflationLP).
Functions are parsed from /repo's current source on every run and executed
symbolically, path by path; dictionaries are total functions (dom, val) over an
uninterpreted key sort, so a proof covers every dictionary of every size.
Loops over a dictionary or a set are summarised by the keyed-loop rule (below),
whose side conditions are proved, never assumed, or by an invariant of the
contract file.  What is outside the subset raises Unsupported: not proved.
"""
import ast
import itertools
import time
import z3

from .values import Unsupported
from .engine import Obligation

R = z3.RealSort()
B = z3.BoolSort()
I = z3.IntSort()


def Sort(name, _memo={}):
    if name not in _memo:
        _memo[name] = z3.DeclareSort(name)
    return _memo[name]


# --------------------------------------------------------------------- values
class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return f"Ref({self.a})"


class Exc:
    def __init__(self, name):
        self.name = name


class Absent:
    pass


ABSENT = Absent()


class Text:
    """a string whose content does not matter"""


TEXT = Text()


def addk(keys, k):
    return None if keys is None else keys + (k,)


class DictO:
    """dom: key -> Bool, val: key -> value; default for defaultdict"""
    __slots__ = ("ksort", "dom", "val", "default", "E", "keys")

    def __init__(self, ksort, dom, val, default=None, E=None, keys=()):
        self.ksort, self.dom, self.val, self.default, self.E, self.keys = ksort, dom, val, default, E, keys

    def put(self, k, v, eng):
        d, vv = self.dom, self.val
        E = None
        if self.E is not None and eng.x is not None and k.sort() == eng.xsort:
            try:
                E = self.E - IT(d(k), real(vv(k)) * eng.x(k), z3.RealVal(0)) + real(v) * eng.x(k)
            except Unsupported:
                E = None
        return DictO(self.ksort, lambda q: OR(EQ(q, k), d(q)), lambda q: IT(EQ(q, k), v, vv(q)), self.default, E, addk(self.keys, k))

    def drop(self, k, eng):
        d, vv = self.dom, self.val
        E = None
        if self.E is not None and eng.x is not None and k.sort() == eng.xsort:
            try:
                E = self.E - IT(d(k), real(vv(k)) * eng.x(k), z3.RealVal(0))
            except Unsupported:
                E = None
        return DictO(self.ksort, lambda q: AND(NOT(EQ(q, k)), d(q)), vv, self.default, E, addk(self.keys, k))


class Counter_:
    """the default of a collections.Counter: a missing key counts zero and stays missing"""
    def __repr__(self):
        return "COUNTER"


COUNTER = Counter_()


class CDict:
    """dictionary with concrete (string) keys"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = dict(items)


class SetO:
    __slots__ = ("ksort", "mem", "keys")

    def __init__(self, ksort, mem, keys=()):
        self.ksort, self.mem, self.keys = ksort, mem, keys


class LstO:
    """a sequence as a tuple of parts: Gen (elements in some order) or ("one", value)"""
    __slots__ = ("parts",)

    def __init__(self, parts=()):
        self.parts = tuple(parts)


class ArrO:
    """array with index function"""
    __slots__ = ("shape", "get", "keys")

    def __init__(self, shape, get, keys=()):
        self.shape, self.get, self.keys = tuple(shape), get, keys


class RecO:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, dict(attrs)


class Gen:
    """{elem(vars) : cond(vars)}, a family indexed by its variables; when
    `indexed` the family is a sequence in index order"""
    __slots__ = ("vars", "cond", "elem", "seq")

    def __init__(self, vars, cond, elem, seq=None):
        self.vars, self.cond, self.elem, self.seq = list(vars), cond, elem, seq

    def at(self, terms):
        ps = list(zip(self.vars, terms))
        return sub(self.cond, ps), sub(self.elem, ps)


class Native:
    """a library value (an array, a sparse matrix) with a model of its own: only what
    its class defines can be done with it"""
    def attribute(self, eng, st, attr):
        raise Unsupported(f"attribute {attr} of {type(self).__name__}")

    def subscript(self, eng, st, k):
        raise Unsupported(f"subscript of {type(self).__name__}")

    def length(self, eng, st):
        raise Unsupported(f"len of {type(self).__name__}")

    def unary(self, eng, st, op):
        raise Unsupported(f"unary {op} of {type(self).__name__}")

    def iterate(self, eng, st):
        raise Unsupported(f"iterating {type(self).__name__}")

    def call(self, eng, st, args, kw):
        raise Unsupported(f"call of {type(self).__name__}")

    def binop(self, eng, st, op, a, b):
        raise Unsupported(f"{op} of {type(self).__name__}")


class HeapNative:
    """a mutable library object (an immutable snapshot of it, in the heap)"""
    def attribute(self, eng, st, ref, attr):
        return [(st, Bd(ref, attr))]

    def method(self, eng, st, ref, attr, args, kw):
        raise Unsupported(f"method {attr} of {type(self).__name__}")

    def subscript(self, eng, st, ref, k):
        raise Unsupported(f"subscript of {type(self).__name__}")

    def put(self, eng, st, ref, k, w):
        raise Unsupported(f"assignment into {type(self).__name__}")

    def setattr(self, eng, st, ref, attr, w):
        raise Unsupported(f"attribute assignment to {type(self).__name__}")

    def length(self, eng, st, ref):
        raise Unsupported(f"len of {type(self).__name__}")

    def iterate(self, eng, st, ref):
        raise Unsupported(f"iterating {type(self).__name__}")

    def unary(self, eng, st, ref, op):
        raise Unsupported(f"unary {op} of {type(self).__name__}")

    def isinstance(self, nm):
        raise Unsupported(f"isinstance of {type(self).__name__}")


class Star:
    """a starred argument that is not a concrete sequence"""
    def __init__(self, v):
        self.v = v


class Fn:
    def __init__(self, node, mod, self_val=None, name=None, cls=None, closure=None):
        self.node, self.mod, self.self_val, self.name, self.cls, self.closure = node, mod, self_val, name or getattr(node, "name", "lambda"), cls, closure


class Bn:
    """builtin / library function by dotted name"""
    def __init__(self, name):
        self.name = name


class Bd:
    """bound library method"""
    def __init__(self, obj, attr):
        self.obj, self.attr = obj, attr


# ---------------------------------------------------------------- term helpers
def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def AND(*xs):
    out = []
    for x in xs:
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            return False
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            continue
        out.append(x)
    return True if not out else out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is True or (z3.is_expr(x) and z3.is_true(x)):
            return True
        if x is False or (z3.is_expr(x) and z3.is_false(x)):
            continue
        out.append(x)
    return False if not out else out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def IMP(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return zb(a) == zb(b)


def isnum(v):
    return isinstance(v, (int, float)) or (z3.is_expr(v) and z3.is_arith(v))


def real(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, (int, float)):
        return z3.RealVal(repr(v) if isinstance(v, float) else v)
    if z3.is_expr(v):
        if z3.is_int(v):
            return z3.ToReal(v)
        if z3.is_real(v):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
    raise Unsupported(f"number from {type(v).__name__}")


def EQ(a, b):
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return True
        if a.sort() == b.sort():
            return a == b
        if z3.is_arith(a) and z3.is_arith(b):
            return real(a) == real(b)
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and AND(*[EQ(x, y) for x, y in zip(a, b)])
    if isnum(a) and isnum(b):
        if not z3.is_expr(a) and not z3.is_expr(b):
            return a == b
        if z3.is_expr(a) and z3.is_int(a) and isinstance(b, int) or z3.is_expr(b) and z3.is_int(b) and isinstance(a, int):
            return a == b
        return real(a) == real(b)
    if z3.is_expr(a) and z3.is_bool(a) and isinstance(b, bool) or z3.is_expr(b) and z3.is_bool(b) and isinstance(a, bool):
        return zb(a) == zb(b)
    if a is None or b is None:
        if a is None and b is None:
            return True
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, (bool, str)) and isinstance(b, (bool, str)):
        return a == b
    if z3.is_expr(a) and isinstance(b, str):
        return a == strconst(b, a.sort())
    if z3.is_expr(b) and isinstance(a, str):
        return b == strconst(a, b.sort())
    if isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a:
        return True
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


STRINGS = {}


def strconst(s, sort):
    """the element of an opaque sort that a literal string denotes"""
    key = (s, sort.name())
    if key not in STRINGS:
        STRINGS[key] = z3.Const("str_" + s.encode().hex() + "_" + "".join(x if x.isalnum() else "_" for x in s), sort)
    return STRINGS[key]


def string_axioms():
    by = {}
    for (s, n), c in STRINGS.items():
        by.setdefault(n, []).append(c)
    return [z3.Distinct(*cs) for cs in by.values() if len(cs) > 1]


def IT(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if z3.is_expr(c) and z3.is_true(c):
        return a
    if z3.is_expr(c) and z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(IT(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, (bool, str, int, float)) and isinstance(b, (bool, str, int, float)) and type(a) is type(b) and a == b:
        return a
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    if (isinstance(a, bool) or z3.is_expr(a) and z3.is_bool(a)) and (isinstance(b, bool) or z3.is_expr(b) and z3.is_bool(b)):
        return z3.If(c, zb(a), zb(b))
    if isnum(a) and isnum(b):
        if all(isinstance(x, int) or z3.is_expr(x) and z3.is_int(x) for x in (a, b)) and not isinstance(a, bool) and not isinstance(b, bool):
            return z3.If(c, z3.IntVal(a) if isinstance(a, int) else a, z3.IntVal(b) if isinstance(b, int) else b)
        return z3.If(c, real(a), real(b))
    if z3.is_expr(a) and isinstance(b, str):
        return z3.If(c, a, strconst(b, a.sort()))
    if z3.is_expr(b) and isinstance(a, str):
        return z3.If(c, strconst(a, b.sort()), b)
    raise Unsupported(f"conditional value of {type(a).__name__} and {type(b).__name__}")


class Undef:
    """value outside the domain"""


UNDEF = Undef()

_q = itertools.count()


def var(sort, nm="q"):
    return z3.Const(f"{nm}?{next(_q)}", sort)


def FA(sorts, f):
    vs = [var(s) for s in (sorts if isinstance(sorts, (list, tuple)) else [sorts])]
    b = f(*vs)
    return b if isinstance(b, bool) else z3.ForAll(vs, b)


def EX(sorts, f):
    vs = [var(s) for s in (sorts if isinstance(sorts, (list, tuple)) else [sorts])]
    b = f(*vs)
    return b if isinstance(b, bool) else z3.Exists(vs, b)


def sub(v, ps):
    """substitute z3 constants in a value"""
    if not ps:
        return v
    if z3.is_expr(v):
        return z3.substitute(v, *ps)
    if isinstance(v, tuple):
        return tuple(sub(x, ps) for x in v)
    if isinstance(v, DictO):
        if v.ksort is None:
            return v
        p = var(v.ksort)
        d, w = v.dom(p), v.val(p)
        E = sub(v.E, ps) if v.E is not None else None

        def dd(q):
            return sub(sub(d, ps), [(p, q)])

        def ww(q):
            return sub(sub(w, ps), [(p, q)])
        return DictO(v.ksort, dd, ww, v.default, E)
    if isinstance(v, SetO):
        p = var(v.ksort)
        m = v.mem(p)
        return SetO(v.ksort, lambda q: sub(sub(m, ps), [(p, q)]))
    if isinstance(v, Gen):
        return Gen(v.vars, sub(v.cond, ps), sub(v.elem, ps), v.seq)
    if isinstance(v, LstO):
        return LstO([(x[0], sub(x[1], ps)) if isinstance(x, tuple) else sub(x, ps) for x in v.parts])
    if isinstance(v, Native) and hasattr(v, "substituted"):
        return v.substituted(ps)
    return v


def mentions(t, cs):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if any(x.eq(c) for c in cs):
            return True
        todo += x.children()
    return False


def syms(t, memo=None):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += list(x)
            continue
        if not z3.is_expr(x) or x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    return out


class St:
    __slots__ = ("env", "heap", "pc", "reads")

    def __init__(self, env=None, heap=None, pc=None):
        self.env, self.heap, self.pc = env or {}, heap or {}, pc or []

    def copy(self):
        return St(dict(self.env), dict(self.heap), list(self.pc))

    def assume(self, c, branch=False):
        s = self.copy()
        s.pc.append((zb(c), branch))
        return s

    def pcs(self):
        return [p for p, _ in self.pc]


class ObjEngine:
    def __init__(self, program, stubs=None, loops=None, attrs=None, budget_s=60):
        self.P = program
        self.stubs = stubs or {}       # name or Class.name -> handler(eng, st, args, kw) -> [(st, value)]
        self.loops = loops or {}       # function name -> invariant spec
        self.attrs = attrs or {}       # (sort name, attribute) -> fn(term) -> value
        self.obls, self.rules, self.notes = [], [], []
        self.axioms = []
        self.patience = 400  # ms for refuting a path
        self.used_lib, self.inlined = set(), set()
        self.ctx = []
        self.stack = []
        self.cur = "?"
        self.addr = itertools.count(1)
        self.n = itertools.count()
        self.deadline = time.time() + budget_s
        self.sums = []
        self.hfacts = []
        self.hofs = {}
        self.pins = {}
        self.frozen = set()
        self.x = None
        self.xsort = None
        self.side = 0
        self.depth = 0

    # ------------------------------------------------------------------ basics
    def fresh(self, nm, sort, *dom):
        name = f"{nm}!{next(self.n)}"
        cs = list(self.ctx)
        if not cs and not dom:
            return z3.Const(name, sort)
        f = z3.Function(name, *[c.sort() for c in cs], *dom, sort)
        if not dom:
            return f(*cs)

        def call(*a):
            return f(*cs, *a)
        call.name = name
        return call

    def pin(self, o):
        """a token for a snapshot, which is kept so that the token stays its own"""
        self.pins[id(o)] = o
        return id(o)

    def alloc(self, st, o):
        r = Ref(next(self.addr))
        st.heap[r.a] = o
        return r

    def solver(self, ms):
        s = z3.Solver()
        s.set("timeout", int(ms))
        return s

    def feasible(self, st):
        if time.time() > self.deadline:
            raise Unsupported("symbolic execution budget exhausted")
        s = self.solver(self.patience)
        s.add(*st.pcs())
        s.add(*string_axioms())
        return s.check() != z3.unsat

    def proves(self, pc, g, ms=3000):
        self.side += 1
        if g is True:
            return True
        s = self.solver(ms)
        s.add(*pc)
        s.add(*string_axioms())
        s.add(*self.axioms)
        s.add(z3.Not(zb(g)))
        return s.check() == z3.unsat

    def oblige(self, st, g, name, kind="post"):
        self.obls.append(Obligation(name, st.pcs() if isinstance(st, St) else st, zb(g), kind, self.cur))

    def fork(self, st, c):
        """[(state, truth)]"""
        if isinstance(c, bool):
            return [(st, c)]
        out = []
        t = st.assume(c, True)
        if self.feasible(t):
            out.append((t, True))
        f = st.assume(z3.Not(c), True)
        if self.feasible(f):
            out.append((f, False))
        if len(out) == 1:
            # the other branch is refuted: the test is a consequence, not a choice
            out = [(st.assume(out[0][0].pc[-1][0], False), out[0][1])]
        return out

    def truth(self, st, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return v != 0
        if isinstance(v, str):
            return len(v) > 0
        if isinstance(v, tuple):
            return len(v) > 0
        if z3.is_expr(v):
            if z3.is_bool(v):
                return v
            if z3.is_arith(v):
                return v != 0
            raise Unsupported("truth of an opaque value")
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, DictO):
                return self.nonempty_dict(o)
            if isinstance(o, SetO):
                return EX(o.ksort, lambda q: o.mem(q))
            if isinstance(o, CDict):
                return len(o.items) > 0
            if isinstance(o, LstO):
                return OR(*[True if isinstance(p, tuple) else (z3.Exists(p.vars, zb(p.cond)) if p.vars else p.cond) for p in o.parts])
        if isinstance(v, Gen):
            return z3.Exists(v.vars, zb(v.cond)) if v.vars else v.cond
        raise Unsupported(f"truth of {type(v).__name__}")

    def nonempty_dict(self, o):
        if o.ksort is None:
            return False
        return EX(o.ksort, lambda q: o.dom(q))

    def key(self, k, ksort):
        if isinstance(k, str) and ksort is not None and ksort not in (R, I, B):
            return strconst(k, ksort)
        if isinstance(k, (int, float)) and ksort is not None and ksort.kind() == z3.Z3_UNINTERPRETED_SORT:
            return strconst(str(k), ksort)
        if z3.is_expr(k):
            return k
        if isinstance(k, int) and ksort == I:
            return z3.IntVal(k)
        if isinstance(k, tuple):
            return self.pack(k)
        raise Unsupported(f"key of type {type(k).__name__}")

    def pack(self, t):
        """tuples of terms as keys: an injective constructor"""
        ts = [self.key(x, None) if not isinstance(x, int) else z3.IntVal(x) for x in t]
        nm = "Tup_" + "_".join(x.sort().name() for x in ts)
        s = Sort(nm)
        f = z3.Function("mk" + nm, *[x.sort() for x in ts], s)
        if nm not in self.hofs:
            self.hofs[nm] = True
            for i, x in enumerate(ts):
                g = z3.Function(f"get{i}" + nm, s, x.sort())
                vs = [var(y.sort()) for y in ts]
                self.axioms.append(z3.ForAll(vs, g(f(*vs)) == vs[i]))
        return f(*ts)

    # ------------------------------------------------------------- sums, hofs
    def PROD(self, vars, cond, term):
        return self.SUM(vars, cond, term, "prod", 1)

    def SUM(self, vars, cond, term, op="sum", unit=0):
        """the sum (product) of term over cond; families that differ in terms zero
        (one) have the same"""
        unit = z3.RealVal(unit)
        cs = [c for c in self.ctx]
        nm = f"{op}!{next(self.n)}"
        s = z3.Function(nm, *[c.sort() for c in cs], R)(*cs) if cs else z3.Const(nm, R)
        self.sums.append((s, cs, list(vars), zb(cond), real(term)))
        k = len(self.sums) - 1
        none = z3.ForAll(vars, z3.Implies(zb(cond), real(term) == unit))
        ax = z3.Implies(none, s == unit)
        self.axioms.append(z3.ForAll(cs, ax) if cs else ax)
        for s2, cs2, v2, c2, t2 in self.sums[:k]:
            if [v.sort() for v in v2] != [v.sort() for v in vars] or s2.decl().name().split("!")[0] != op:
                continue
            ps = list(zip(v2, vars))
            c2s, t2s = sub(c2, ps), sub(t2, ps)
            same = z3.ForAll(list(vars), z3.If(zb(cond), real(term), unit) == z3.If(c2s, t2s, unit))
            ax = z3.Implies(same, s == s2)
            al = cs + [c for c in cs2 if not any(c.eq(d) for d in cs)]
            self.axioms.append(z3.ForAll(al, ax) if al else ax)
        return s

    def HOF(self, name, snaps, sort, *dom):
        """an uninterpreted function of whole dictionaries / sets: one symbol per
        tuple of snapshots, congruent for extensionally equal ones"""
        outer = self.ctx
        try:
            if not any(mentions(e, outer) for o in snaps for e in self.probe(o)):
                self.ctx = []
        except Unsupported:
            pass
        try:
            return self._HOF(name, snaps, sort, dom)
        finally:
            self.ctx = outer

    def probe(self, o):
        """the expressions an object consists of"""
        if isinstance(o, DictO):
            if o.ksort is None:
                return []
            q = var(o.ksort)
            return [zb(o.dom(q))] + self.probe(o.val(q))
        if isinstance(o, SetO):
            return [zb(o.mem(var(o.ksort)))]
        if isinstance(o, tuple):
            return [e for x in o for e in self.probe(x)]
        if z3.is_expr(o):
            return [o]
        if o is None or isinstance(o, (bool, int, float, str)):
            return []
        raise Unsupported("probe")

    def _HOF(self, name, snaps, sort, dom):
        lst = self.hofs.setdefault(("hof", name), [])
        for g, old, cs in lst:
            if not cs and not self.ctx and len(old) == len(snaps) and all(a is b for a, b in zip(snaps, old)):
                return g
        f = self.fresh(name, sort, *dom)
        for g, old, cs in lst:
            try:
                same = AND(*[self.same_obj(a, b) for a, b in zip(snaps, old)])
            except Unsupported:
                continue
            vs = [var(d) for d in dom]
            eq = (f(*vs) == g(*vs)) if dom else (f == g)
            ax = z3.Implies(zb(same), z3.ForAll(vs, eq) if vs else eq)
            al = list(self.ctx) + [c for c in cs if not any(c.eq(d) for d in self.ctx)]
            self.axioms.append(z3.ForAll(al, ax) if al else ax)
        lst.append((f, snaps, list(self.ctx)))
        return f

    def same_obj(self, a, b):
        if isinstance(a, DictO) and isinstance(b, DictO):
            if a.ksort is None or b.ksort is None:
                k = a.ksort or b.ksort
                if k is None:
                    return True
                return FA(k, lambda q: AND(NOT(a.dom(q)), NOT(b.dom(q))))
            if a.ksort != b.ksort:
                raise Unsupported("comparison of dictionaries of different keys")
            return FA(a.ksort, lambda q: AND(IFF(a.dom(q), b.dom(q)), IMP(a.dom(q), self.same_val(a.val(q), b.val(q)))))
        if isinstance(a, SetO) and isinstance(b, SetO):
            if a.ksort != b.ksort:
                raise Unsupported("comparison of sets of different sorts")
            return FA(a.ksort, lambda q: IFF(a.mem(q), b.mem(q)))
        if isinstance(a, CDict) and isinstance(b, CDict):
            return set(a.items) == set(b.items) and AND(*[self.same_val(a.items[k], b.items[k]) for k in a.items])
        if isinstance(a, LstO) and isinstance(b, LstO):
            if len(a.parts) != len(b.parts):
                return False
            return AND(*[self.same_part(p, q) for p, q in zip(a.parts, b.parts)])
        if isinstance(a, ArrO) and isinstance(b, ArrO):
            return AND(*[EQ(x, y) for x, y in zip(a.shape, b.shape)], FA([I] * len(a.shape), lambda *k: EQ(a.get(*k), b.get(*k))))
        return self.same_val(a, b)

    def same_part(self, p, q):
        if isinstance(p, tuple) and isinstance(q, tuple):
            return self.same_val(p[1], q[1])
        if isinstance(p, Gen) and isinstance(q, Gen) and [v.sort() for v in p.vars] == [v.sort() for v in q.vars]:
            vs = [var(v.sort()) for v in p.vars]
            c1, e1 = p.at(vs)
            c2, e2 = q.at(vs)
            b = AND(IFF(c1, c2), IMP(c1, self.same_val(e1, e2)))
            return b if isinstance(b, bool) or not vs else z3.ForAll(vs, b)
        return False

    def same_val(self, a, b):
        if isinstance(a, (DictO, SetO, CDict, LstO, ArrO)):
            return type(a) is type(b) and self.same_obj(a, b)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return isinstance(a, Undef) and isinstance(b, Undef)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and AND(*[self.same_val(x, y) for x, y in zip(a, b)])
        return EQ(a, b)

    # ------------------------------------------------------------- expressions
    def evals(self, nodes, st):
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                if vs and isinstance(vs[-1], Exc):
                    nxt.append((s, vs))
                    continue
                nxt += [(s2, vs + [v]) for s2, v in self.eval(n, s)]
            outs = nxt
        return outs

    def eval(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__} at line {getattr(node, 'lineno', '?')}")
        return m(node, st)

    def then(self, rs, f):
        """apply f(st, value) to the normal results"""
        out = []
        for s, v in rs:
            out += [(s, v)] if isinstance(v, Exc) else f(s, v)
        return out

    def thens(self, rs, f):
        out = []
        for s, vs in rs:
            out += [(s, vs[-1])] if vs and isinstance(vs[-1], Exc) else f(s, vs)
        return out

    def e_Constant(self, node, st):
        return [(st, node.value)]

    def e_JoinedStr(self, node, st):
        return [(st, TEXT)]

    def e_Name(self, node, st):
        if node.id in st.env:
            v = st.env[node.id]
            if v is ABSENT:
                raise Unsupported(f"variable {node.id} may be unbound")
            return [(st, v)]
        return [(st, self.glob(node.id))]

    def glob(self, name):
        f = self.stack[-1]
        c = f.closure
        while c is not None:
            if name in c:
                return c[name]
            c = None
        mod = f.mod
        if name in self.stubs:
            return Bn(name)
        if name in mod.funcs:
            return Fn(mod.funcs[name], mod)
        if name in mod.imports:
            r = self.P.resolve_import(mod, name)
            if r is not None:
                m, orig = r
                if orig in m.funcs:
                    return Fn(m.funcs[orig], m)
                return Bn(f"{m.name}:{orig}")
            kind, m, orig = mod.imports[name]
            return Bn(m if kind == "mod" else f"{m}.{orig}")
        if name in mod.classes:
            return Bn(f"class:{name}")
        if name in mod.consts and isinstance(mod.consts[name], ast.Constant):
            return mod.consts[name].value
        return Bn(name)

    def e_Tuple(self, node, st):
        return self.thens(self.evals(node.elts, st), lambda s, vs: [(s, tuple(vs))])

    def e_List(self, node, st):
        if len(node.elts) == 1 and isinstance(node.elts[0], ast.Starred):
            return self.then(self.eval(node.elts[0].value, st), lambda s, v: self.builtin(s, "list", [v], {}))
        def f(s, vs):
            s = s.copy()
            return [(s, self.alloc(s, LstO([("one", self.freeze(s, v)) for v in vs])))]
        return self.thens(self.evals(node.elts, st), f)

    def freeze(self, st, v):
        """heap objects stored inside other containers become snapshots"""
        if isinstance(v, Ref) and isinstance(st.heap[v.a], (DictO, SetO, LstO, CDict)):
            self.frozen.add(v.a)
            return st.heap[v.a]
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x) for x in v)
        return v

    def changing(self, v):
        """an object of which a container holds a snapshot must not change"""
        if isinstance(v, Ref) and v.a in self.frozen:
            raise Unsupported("an object kept in a container is changed afterwards")

    def thaw(self, st, v):
        """a snapshot taken out of a container becomes an object again"""
        if isinstance(v, (DictO, SetO, LstO, CDict)):
            st = st.copy()
            return st, self.alloc(st, v)
        return st, v

    def e_Set(self, node, st):
        def f(s, vs):
            s = s.copy()
            if all(isinstance(v, str) for v in vs):
                return [(s, tuple(vs))]
            srt = next((v.sort() for v in vs if z3.is_expr(v)), None)
            if srt is None:
                return [(s, tuple(vs))]
            ks = [self.key(v, srt) for v in vs]
            return [(s, self.alloc(s, SetO(srt, lambda q: OR(*[EQ(q, k) for k in ks]))))]
        return self.thens(self.evals(node.elts, st), f)

    def e_Dict(self, node, st):
        if any(k is None for k in node.keys):
            return self.unpacked(node, st)
        n = len(node.keys)

        def f(s, vs):
            s = s.copy()
            ks = vs[:n]
            if n == 0:
                return [(s, self.alloc(s, self.empty()))]
            if all(isinstance(k, str) for k in ks):
                return [(s, self.alloc(s, CDict(zip(ks, vs[n:]))))]
            ws = [self.freeze(s, v) for v in vs[n:]]
            srt = next((k.sort() for k in ks if z3.is_expr(k)), None)
            if srt is None:
                raise Unsupported("dictionary literal keys")
            d = self.empty(srt)
            for k, w in zip(ks, ws):
                d = d.put(self.key(k, srt), w, self)
            return [(s, self.alloc(s, d))]
        return self.thens(self.evals(list(node.keys) + list(node.values), st), f)

    def unpacked(self, node, st):
        """{k: v, **d, ...} from left to right"""
        st = st.copy()
        outs = [(st, self.alloc(st, self.empty()))]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, r in outs:
                if isinstance(r, Exc):
                    nxt.append((s, r))
                    continue
                for s2, vs in self.evals(([k] if k is not None else []) + [v], s):
                    if isinstance(vs, Exc):
                        nxt.append((s2, vs))
                    elif k is None and isinstance(vs[0], Ref) and isinstance(s2.heap[vs[0].a], CDict) and s2.heap[vs[0].a].items and getattr(s2.heap[r.a], "ksort", 0) is None:
                        # nothing so far: a copy
                        s3 = s2.copy()
                        s3.heap[r.a] = CDict(s2.heap[vs[0].a].items)
                        nxt.append((s3, r))
                    elif k is None:
                        nxt += [(s3, w if isinstance(w, Exc) else r) for s3, w in self.libmethod(s2, r, "update", [vs[0]], {})]
                    else:
                        nxt += [(s3, w if isinstance(w, Exc) else r) for s3, w in self.put(s2, r, vs[0], vs[1])]
            outs = nxt
        return outs

    def empty(self, ksort=None, default=None):
        return DictO(ksort, lambda q: False, lambda q: UNDEF, default, z3.RealVal(0) if self.x is not None else None)

    def e_UnaryOp(self, node, st):
        def f(s, v):
            if isinstance(node.op, ast.Not):
                return [(s, NOT(self.truth(s, v)))]
            if isinstance(node.op, ast.USub):
                if isinstance(v, (int, float)):
                    return [(s, -v)]
                if z3.is_expr(v) and z3.is_arith(v):
                    return [(s, -v)]
            if isinstance(v, Native):
                return v.unary(self, s, type(node.op).__name__)
            if isinstance(v, Ref) and isinstance(s.heap[v.a], HeapNative):
                return s.heap[v.a].unary(self, s, v, type(node.op).__name__)
            raise Unsupported(f"unary {type(node.op).__name__}")
        return self.then(self.eval(node.operand, st), f)

    def e_BoolOp(self, node, st):
        conj = isinstance(node.op, ast.And)
        outs = [(st, None, False)]
        for n in node.values:
            nxt = []
            for s, v, done in outs:
                if done:
                    nxt.append((s, v, True))
                    continue
                if v is None:
                    nxt += [(s2, w, isinstance(w, Exc)) for s2, w in self.eval(n, s)]
                    continue
                t = self.truth(s, v)
                if isinstance(t, bool):
                    if t == conj:
                        nxt += [(s2, w, isinstance(w, Exc)) for s2, w in self.eval(n, s)]
                    else:
                        nxt.append((s, v, True))
                    continue
                isb = z3.is_bool(v) if z3.is_expr(v) else isinstance(v, bool)
                g = t if conj else z3.Not(t)
                sg = s.assume(g, True)
                if not self.feasible(sg):
                    nxt.append((s, v, True))
                    continue
                rs = self.eval(n, sg)
                w0 = rs[0][1] if rs else None
                if isb and len(rs) == 1 and (z3.is_bool(w0) if z3.is_expr(w0) else isinstance(w0, bool)) and len(rs[0][0].pc) == len(sg.pc):
                    try:
                        w = self.truth(rs[0][0], rs[0][1])
                        nxt.append((St(rs[0][0].env, rs[0][0].heap, s.pc), AND(t, w) if conj else OR(t, w), False))
                        continue
                    except Unsupported:
                        pass
                nxt += [(s2, w, isinstance(w, Exc)) for s2, w in rs]
                so = s.assume(z3.Not(g), True)
                if self.feasible(so):
                    nxt.append((so, (not conj) if isb else v, True))
            outs = nxt
        return [(s, v) for s, v, _ in outs]

    def e_IfExp(self, node, st):
        def f(s, c):
            t = self.truth(s, c)
            if not isinstance(t, bool):
                a, b = self.eval(node.body, s), self.eval(node.orelse, s)
                if len(a) == 1 and len(b) == 1 and a[0][0] is s and b[0][0] is s:
                    try:
                        return [(s, IT(t, a[0][1], b[0][1]))]
                    except Unsupported:
                        pass
            out = []
            for s2, tt in self.fork(s, t):
                out += self.eval(node.body if tt else node.orelse, s2)
            return out
        return self.then(self.eval(node.test, st), f)

    def e_Compare(self, node, st):
        def f(s, vs):
            res = True
            for op, a, b in zip(node.ops, vs, vs[1:]):
                t = self.compare(s, op, a, b)
                res = t if len(node.ops) == 1 else AND(res, t)
            return [(s, res)]
        return self.thens(self.evals([node.left] + node.comparators, st), f)

    def compare(self, st, op, a, b):
        h = self.stubs.get("compare")
        if h is not None:
            r = h(self, st, type(op).__name__, a, b)
            if r is not None:
                return r
        if isinstance(op, ast.Eq):
            if isinstance(b, tuple) and b and b[0] == "type":
                a, b = b, a
            if isinstance(a, tuple) and a and a[0] == "type" and isinstance(b, Bn):
                if z3.is_expr(a[1]):
                    raise Unsupported("exact type of an opaque value")
                return self.isinst(st, a[1], b)
            if isinstance(a, Ref) or isinstance(b, Ref):
                return self.same_obj(st.heap[a.a] if isinstance(a, Ref) else a, st.heap[b.a] if isinstance(b, Ref) else b)
            return EQ(a, b)
        if isinstance(op, ast.NotEq):
            return NOT(self.compare(st, ast.Eq(), a, b))
        if isinstance(op, ast.Is):
            if a is None or b is None:
                if z3.is_expr(a) or z3.is_expr(b):
                    t = a if z3.is_expr(a) else b
                    p = self.attrs.get((t.sort().name(), "is None"))
                    return p(t) if p else False
                return a is None and b is None
            return EQ(a, b)
        if isinstance(op, ast.IsNot):
            return NOT(self.compare(st, ast.Is(), a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.member(st, a, b)
            return NOT(r) if isinstance(op, ast.NotIn) else r
        if isnum(a) and isnum(b):
            if z3.is_expr(a) or z3.is_expr(b):
                if z3.is_expr(a) and z3.is_real(a) or z3.is_expr(b) and z3.is_real(b) or isinstance(a, float) or isinstance(b, float):
                    a, b = real(a), real(b)
            if isinstance(op, ast.Lt):
                return a < b
            if isinstance(op, ast.LtE):
                return a <= b
            if isinstance(op, ast.Gt):
                return a > b
            if isinstance(op, ast.GtE):
                return a >= b
        raise Unsupported(f"comparison {type(op).__name__} of {type(a).__name__}, {type(b).__name__}")

    def member(self, st, a, b):
        if isinstance(b, Ref):
            ref, b = b, st.heap[b.a]
            if isinstance(b, HeapNative) and z3.is_expr(a):
                b = b.iterate(self, st, ref)
                b = b if isinstance(b, Gen) else tuple(b)
        if isinstance(b, tuple):
            return OR(*[EQ(a, x) for x in b])
        if isinstance(b, DictO):
            return False if b.ksort is None else b.dom(self.key(a, b.ksort))
        if isinstance(b, SetO):
            return b.mem(self.key(a, b.ksort))
        if isinstance(b, CDict) and isinstance(a, str):
            return a in b.items
        if isinstance(b, (LstO, Gen)):
            parts = b.parts if isinstance(b, LstO) else (b,)
            out = []
            for p in parts:
                if isinstance(p, tuple):
                    out.append(EQ(a, p[1]))
                elif len(p.vars) == 1 and z3.is_expr(p.elem) and p.elem.eq(p.vars[0]) and z3.is_expr(a) and a.sort() == p.elem.sort():
                    out.append(p.at([a])[0])
                else:
                    vs = [var(v.sort()) for v in p.vars]
                    c, e = p.at(vs)
                    bd = AND(c, EQ(e, a))
                    out.append(bd if isinstance(bd, bool) else z3.Exists(vs, bd))
            return OR(*out)
        if z3.is_expr(b):
            p = self.attrs.get((b.sort().name(), "contains"))
            if p:
                return p(b, a)
        raise Unsupported(f"membership in {type(b).__name__}")

    def e_BinOp(self, node, st):
        return self.thens(self.evals([node.left, node.right], st), lambda s, vs: self.binop(s, node.op, vs[0], vs[1]))

    def binop(self, st, op, a, b):
        if isinstance(a, (str, Text)) or isinstance(b, (str, Text)):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, ast.Add):
                return [(st, a + b)]
            return [(st, TEXT)]
        if "binop" in self.stubs:
            r = self.stubs["binop"](self, st, type(op).__name__, a, b)
            if r is not None:
                return r
        for x in (a, b):
            if isinstance(x, Native):
                return x.binop(self, st, type(op).__name__, a, b)
        if isinstance(a, Bn) or isinstance(b, Bn):
            raise Unsupported("arithmetic on a library object")
        if isinstance(op, ast.Mult) and isinstance(b, Ref) and isnum(a):
            a, b = b, a
        if isinstance(op, ast.Mult) and isinstance(a, Ref) and isinstance(st.heap[a.a], LstO) and len(st.heap[a.a].parts) == 1 \
                and isinstance(st.heap[a.a].parts[0], tuple) and z3.is_expr(b) and z3.is_int(b):
            # [x] * n: n times x (none for n <= 0)
            st = st.copy()
            i = var(I, "i")
            return [(st, self.alloc(st, LstO((Gen([i], AND(i >= 0, i < b), st.heap[a.a].parts[0][1]),))))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            x, y = st.heap[a.a], st.heap[b.a]
            if isinstance(x, LstO) and isinstance(y, LstO) and isinstance(op, ast.Add):
                st = st.copy()
                return [(st, self.alloc(st, LstO(x.parts + y.parts)))]
            if isinstance(x, SetO) and isinstance(y, SetO):
                st = st.copy()
                if isinstance(op, ast.BitOr):
                    return [(st, self.alloc(st, SetO(x.ksort, lambda q: OR(x.mem(q), y.mem(q)))))]
                if isinstance(op, ast.BitAnd):
                    return [(st, self.alloc(st, SetO(x.ksort, lambda q: AND(x.mem(q), y.mem(q)))))]
                if isinstance(op, ast.Sub):
                    return [(st, self.alloc(st, SetO(x.ksort, lambda q: AND(x.mem(q), NOT(y.mem(q))))))]
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return [(st, a + b)]
        if isnum(a) and isnum(b):
            sym = z3.is_expr(a) or z3.is_expr(b)
            if sym and (z3.is_expr(a) and z3.is_real(a) or z3.is_expr(b) and z3.is_real(b) or isinstance(a, float) or isinstance(b, float)):
                if isinstance(op, ast.Pow) and not isinstance(b, (int,)):
                    return [(st, self.power(a, b))]
                a, b0 = real(a), b
                if not isinstance(op, ast.Pow):
                    b = real(b)
            if isinstance(op, ast.Add):
                return [(st, a + b)]
            if isinstance(op, ast.Sub):
                return [(st, a - b)]
            if isinstance(op, ast.Mult):
                return [(st, a * b)]
            if isinstance(op, ast.Div):
                if not sym:
                    return [(st, a / b)]
                a, b = real(a), real(b)
                return [(st, a / b)]
            if isinstance(op, ast.Pow):
                if isinstance(b, int) and not z3.is_expr(a):
                    return [(st, a ** b)]
                return [(st, self.power(a, b))]
            if isinstance(op, ast.FloorDiv) and not sym:
                return [(st, a // b)]
            if isinstance(op, ast.Mod) and not sym:
                return [(st, a % b)]
            if isinstance(op, (ast.FloorDiv, ast.Mod)) and z3.is_expr(a) and z3.is_int(a) and isinstance(b, int) and not isinstance(b, bool) and b > 0:
                # for positive divisors SMT-LIB's div and mod are floor division
                return [(st, a / b if isinstance(op, ast.FloorDiv) else a % b)]
        h = self.stubs.get("binop")
        if h is not None:
            r = h(self, st, op, a, b)
            if r is not None:
                return r
        raise Unsupported(f"operator {type(op).__name__} on {type(a).__name__}, {type(b).__name__}")

    def power(self, a, b):
        f = z3.Function("pow", R, I, R)
        if isinstance(b, int):
            b = z3.IntVal(b)
        return f(real(a), b)

    # -------------------------------------------------------------- attributes
    def e_Attribute(self, node, st):
        return self.then(self.eval(node.value, st), lambda s, v: self.attribute(s, v, node.attr))

    def attribute(self, st, v, attr):
        if isinstance(v, Bn):
            if (v.name, attr) in (("sympy.S", "Zero"), ("sympy.S", "One")):
                return [(st, 0 if attr == "Zero" else 1)]
            return [(st, Bn(f"{v.name}.{attr}"))]
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, RecO):
                if attr in o.attrs:
                    w = o.attrs[attr]
                    return [(st, Exc("AttributeError"))] if w is ABSENT else [(st, w)]
                cname = o.cls[1]
                for nm in (f"{cname}.{attr}", attr):
                    if nm in self.stubs:
                        return [(st, Fn(None, None, v, nm))]
                m = self.method(o.cls, attr)
                if m is not None:
                    mod, fnode = m
                    decs = {d.id if isinstance(d, ast.Name) else getattr(d, "attr", "") for d in fnode.decorator_list}
                    if "classmethod" in decs:
                        raise Unsupported("class method")
                    f = Fn(fnode, mod, None if "staticmethod" in decs else v, attr, o.cls)
                    if decs & {"property", "cached_property"}:
                        return self.call_fn(st, f, [], {})
                    return [(st, f)]
                raise Unsupported(f"attribute {attr} of {cname}")
            if isinstance(o, ArrO):
                if attr == "shape":
                    return [(st, o.shape)]
            if isinstance(o, HeapNative):
                return o.attribute(self, st, v, attr)
            return [(st, Bd(v, attr))]
        if z3.is_expr(v):
            p = self.attrs.get((v.sort().name(), attr))
            if p is not None:
                r = p(v)
                if isinstance(r, (DictO, SetO, LstO)):
                    st, r = self.thaw(st, r)
                return [(st, r)]
            return [(st, Bd(v, attr))]
        if isinstance(v, Native):
            return v.attribute(self, st, attr)
        if isinstance(v, Gen) and attr == "flat":
            return [(st, v)]
        if isinstance(v, (Gen, str, tuple, Text)):
            return [(st, Bd(v, attr))]
        raise Unsupported(f"attribute {attr} of {type(v).__name__}")

    def method(self, cls, name):
        rel, cname = cls
        mod = self.P.module(rel)
        if cname in mod.classes and name in mod.classes[cname]:
            return mod, mod.classes[cname][name]
        return None

    # --------------------------------------------------------------- subscript
    def e_Subscript(self, node, st):
        return self.thens(self.evals([node.value, node.slice], st), lambda s, vs: self.item(s, vs[0], vs[1]))

    def e_Slice(self, node, st):
        parts = [n for n in (node.lower, node.upper, node.step) if n is not None]

        def f(s, vs):
            it = iter(vs)
            return [(s, ("slice",) + tuple(next(it) if n is not None else None for n in (node.lower, node.upper, node.step)))]
        return self.thens(self.evals(parts, st), f)

    def item(self, st, v, k):
        if isinstance(v, Native):
            return v.subscript(self, st, k)
        if isinstance(v, Ref) and isinstance(st.heap[v.a], HeapNative):
            return st.heap[v.a].subscript(self, st, v, k)
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, CDict):
                if isinstance(k, str):
                    return [(st, o.items[k])] if k in o.items else [(st, Exc("KeyError"))]
                raise Unsupported("key of a concrete dictionary")
            if isinstance(o, DictO):
                if o.ksort is None:
                    if o.default is None:
                        return [(st, Exc("KeyError"))]
                    if o.default is COUNTER:
                        return [(st, 0)]
                    if not (isinstance(o.default, (int, float)) and z3.is_expr(k)):
                        raise Unsupported("reading an untyped defaultdict")
                    st = st.copy()
                    st.heap[v.a] = DictO(k.sort(), lambda q: False, lambda q: UNDEF, o.default, o.E).put(k, o.default, self)
                    return [(st, o.default)]
                kk = self.key(k, o.ksort)
                out = []
                for s, t in self.fork(st, o.dom(kk)):
                    if t:
                        s2, w = self.thaw(s, o.val(kk))
                        out.append((s2, w))
                    elif o.default is COUNTER:
                        out.append((s, 0))
                    elif o.default is not None:
                        s = s.copy()
                        s.heap[v.a] = o.put(kk, o.default, self)
                        out.append((s, o.default))
                    else:
                        out.append((s, Exc("KeyError")))
                return out
            if isinstance(o, ArrO):
                ks = k if isinstance(k, tuple) else (k,)
                if len(ks) == len(o.shape) and all(isnum(x) for x in ks):
                    return [(st, o.get(*[z3.IntVal(x) if isinstance(x, int) else x for x in ks]))]
            if isinstance(o, LstO):
                if isinstance(k, int) and all(isinstance(p, tuple) for p in o.parts) and -len(o.parts) <= k < len(o.parts):
                    s, w = self.thaw(st, o.parts[k][1])
                    return [(s, w)]
        if isinstance(v, tuple) and isinstance(k, int):
            return [(st, v[k])] if -len(v) <= k < len(v) else [(st, Exc("IndexError"))]
        if z3.is_expr(v):
            p = self.attrs.get((v.sort().name(), "[]"))
            if p is not None:
                return [(st, p(v, k))]
        raise Unsupported(f"subscript of {type(st.heap[v.a]).__name__ if isinstance(v, Ref) else type(v).__name__}")

    def put(self, st, v, k, w):
        """v[k] = w: [(state, None|Exc)]"""
        self.changing(v)
        if isinstance(v, Ref) and isinstance(st.heap[v.a], HeapNative):
            return st.heap[v.a].put(self, st, v, k, w)
        if isinstance(v, Ref):
            o = st.heap[v.a]
            st = st.copy()
            if isinstance(o, CDict) and isinstance(k, str):
                d = dict(o.items)
                d[k] = w
                st.heap[v.a] = CDict(d)
                return [(st, None)]
            if isinstance(o, DictO):
                ks = o.ksort
                if ks is None and isinstance(k, str) and o.default is None:
                    st.heap[v.a] = CDict({k: w})
                    return [(st, None)]
                if ks is None:
                    kk = self.key(k, None)
                    o = self.empty(kk.sort(), o.default)
                else:
                    kk = self.key(k, ks)
                st.heap[v.a] = o.put(kk, self.freeze(st, w), self)
                return [(st, None)]
            if isinstance(o, ArrO):
                ks = k if isinstance(k, tuple) else (k,)
                if len(ks) == len(o.shape) and all(isnum(x) for x in ks):
                    kz = [z3.IntVal(x) if isinstance(x, int) else x for x in ks]
                    g = o.get
                    st.heap[v.a] = ArrO(o.shape, lambda *q: IT(AND(*[EQ(x, y) for x, y in zip(q, kz)]), w, g(*q)), addk(o.keys, tuple(kz)))
                    return [(st, None)]
        raise Unsupported("item assignment")

    def delete(self, st, v, k):
        self.changing(v)
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, CDict) and isinstance(k, str):
                if k not in o.items:
                    return [(st, Exc("KeyError"))]
                st = st.copy()
                st.heap[v.a] = CDict({a: b for a, b in o.items.items() if a != k})
                return [(st, None)]
            if isinstance(o, DictO):
                if o.ksort is None:
                    return [(st, None if o.default is COUNTER else Exc("KeyError"))]
                kk = self.key(k, o.ksort)
                out = []
                for s, t in self.fork(st, o.dom(kk)):
                    if t:
                        s = s.copy()
                        s.heap[v.a] = o.drop(kk, self)
                        out.append((s, None))
                    else:
                        out.append((s, None if o.default is COUNTER else Exc("KeyError")))
                return out
        raise Unsupported("item deletion")

    # ----------------------------------------------------------- comprehension
    def iterate(self, st, v):
        """Gen, or a python list of values"""
        if isinstance(v, Native):
            return v.iterate(self, st)
        if isinstance(v, Ref) and isinstance(st.heap[v.a], HeapNative):
            return st.heap[v.a].iterate(self, st, v)
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, DictO):
                if o.ksort is None:
                    return []
                k = var(o.ksort, "k")
                return Gen([k], o.dom(k), k, ("dict", v.a, self.pin(o)))
            if isinstance(o, LazySet):
                return []
            if isinstance(o, SetO):
                k = var(o.ksort, "k")
                return Gen([k], o.mem(k), k, ("dict", v.a, self.pin(o)))
            if isinstance(o, LstO):
                if all(isinstance(p, tuple) for p in o.parts):
                    return [p[1] for p in o.parts]
                if len(o.parts) == 1:
                    return o.parts[0]
                return Cat(o.parts)
            if isinstance(o, CDict):
                return list(o.items)
        if isinstance(v, Gen):
            return v
        if isinstance(v, tuple):
            return list(v)
        if z3.is_expr(v):
            p = self.attrs.get((v.sort().name(), "iter"))
            if p is not None:
                return p(v)
        raise Unsupported(f"iterating {type(v).__name__}")

    def bind(self, st, target, v):
        """[(st, None|Exc)] assignment to a target"""
        if isinstance(target, ast.Name):
            st = st.copy()
            st, v = self.thaw(st, v)
            st.env[target.id] = v
            return [(st, None)]
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, tuple):
                vs = list(v)
            elif isinstance(v, Ref) and isinstance(st.heap[v.a], LstO) and all(isinstance(p, tuple) for p in st.heap[v.a].parts):
                vs = [p[1] for p in st.heap[v.a].parts]
            else:
                raise Unsupported("unpacking")
            if len(vs) != len(target.elts):
                raise Unsupported("unpacking a different length")
            outs = [(st, None)]
            for t, x in zip(target.elts, vs):
                nxt = []
                for s, e in outs:
                    nxt += [(s, e)] if e else self.bind(s, t, x)
                outs = nxt
            return outs
        if isinstance(target, ast.Attribute):
            def f(s, o):
                if isinstance(o, Ref) and isinstance(s.heap[o.a], HeapNative):
                    return s.heap[o.a].setattr(self, s, o, target.attr, v)
                if not (isinstance(o, Ref) and isinstance(s.heap[o.a], RecO)):
                    raise Unsupported("attribute assignment")
                r = s.heap[o.a]
                s = s.copy()
                a = dict(r.attrs)
                a[target.attr] = v
                s.heap[o.a] = RecO(r.cls, a)
                return [(s, None)]
            return self.then(self.eval(target.value, st), f)
        if isinstance(target, ast.Subscript):
            return self.thens(self.evals([target.value, target.slice], st), lambda s, vs: self.put(s, vs[0], vs[1], v))
        raise Unsupported(f"target {type(target).__name__}")

    def comps(self, node, st, elts, build):
        """a comprehension: one result for each way its first collection evaluates"""
        out = []
        for s, v in self.eval(node.generators[0].iter, st):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            bad = []
            s2, vs, c, vals, items = self.comp(node, s, elts, v, bad)
            s2 = s2.copy()
            for b, e in bad:
                # some element raises
                sx = s2.assume(z3.Exists(vs, zb(AND(c, b))), True)
                if self.feasible(sx):
                    out.append((sx, e))
            if bad:
                s2 = s2.assume(z3.ForAll(vs, zb(IMP(c, NOT(OR(*[b for b, _ in bad]))))), True)
                if not self.feasible(s2):
                    continue
            out += build(s2.copy(), vs, c, vals, items)
        return out

    def comp(self, node, st, elts, first, bad=None):
        """(state, vars, cond, values, items-or-None): one generic element"""
        env0 = dict(st.env)
        conc = [([], True, st)]
        gens = []
        st = st.copy()
        vars_, cond = [], True
        npc = len(st.pc)
        nctx = len(self.ctx)
        try:
            for n, g in enumerate(node.generators):
                rs = self.eval(g.iter, st) if n else [(st, first)]
                if len(rs) != 1 or isinstance(rs[0][1], Exc):
                    raise Unsupported("comprehension over a forking expression")
                st, it = rs[0]
                it = self.iterate(st, it)
                if isinstance(it, list):
                    if len(node.generators) > 1:
                        raise Unsupported("nested comprehension over a concrete list")
                    return self.comp_concrete(node, st, elts, it, env0)
                ks = [var(v.sort(), "k") for v in it.vars]
                c, e = it.at(ks)
                vars_ += ks
                self.ctx += ks
                cond = AND(cond, c)
                st = st.assume(c, True)
                b = self.bind(st, g.target, e)
                if len(b) != 1 or b[0][1]:
                    raise Unsupported("comprehension target")
                st = b[0][0]
                for i in g.ifs:
                    rs = self.eval(i, st)
                    if any(isinstance(v, Exc) for _, v in rs):
                        raise Unsupported("exception in a comprehension filter")
                    if len(rs) == 1:
                        t = self.truth(*rs[0])
                        st = rs[0][0]
                    else:
                        t = OR(*[AND(*[p for p, b in s.pc[len(st.pc):] if b], self.truth(s, v)) for s, v in rs])
                    cond = AND(cond, t)
                    st = st.assume(t, True)
            vals = []
            nb = len(st.pc)
            for el in elts:
                rs = self.eval(el, st)
                if any(isinstance(v, Exc) for _, v in rs):
                    if bad is None or len(elts) != 1 or all(isinstance(v, Exc) for _, v in rs):
                        raise Unsupported("exception in a comprehension")
                    bad += [(AND(*[p for p, b in s.pc[nb:] if b]), v) for s, v in rs if isinstance(v, Exc)]
                    rs = [r for r in rs if not isinstance(r[1], Exc)]
                if len(rs) == 1:
                    st, v = rs[0]
                    vals.append(self.freeze(st, v))
                else:
                    w = None
                    for s, v in rs:
                        c = AND(*[p for p, b in s.pc[nb:] if b])
                        v = self.freeze(s, v)
                        w = v if w is None else IT(c, v, w)
                    vals.append(w)
            facts = []
            br = []
            for p, b in st.pc[npc:]:
                if b:
                    br.append(p)
                else:
                    facts.append(z3.ForAll(vars_, z3.Implies(z3.And(*br) if br else z3.BoolVal(True), p)))
        finally:
            del self.ctx[nctx:]
        out = St(env0, st.heap, st.pc[:npc] + [(f, False) for f in facts])
        return out, vars_, cond, vals, None

    def comp_forks(self, node, st, it):
        """[(state, values | Exc)] of a list or generator comprehension over a concrete list"""
        g = node.generators[0]
        env0 = dict(st.env)
        runs = [(st, [])]
        for e in it:
            nxt = []
            for s, vals in runs:
                if isinstance(vals, Exc):
                    nxt.append((s, vals))
                    continue
                for s1, x in self.bind(s, g.target, e):
                    if x:
                        nxt.append((s1, x))
                        continue
                    keeps = [(s1, True)]
                    for i in g.ifs:
                        more = []
                        for s2, k in keeps:
                            if k is not True:
                                more.append((s2, k))
                                continue
                            for s3, v in self.eval(i, s2):
                                more += [(s3, v)] if isinstance(v, Exc) else self.fork(s3, self.truth(s3, v))
                        keeps = more
                    for s2, k in keeps:
                        if isinstance(k, Exc):
                            nxt.append((s2, k))
                        elif not k:
                            nxt.append((s2, vals))
                        else:
                            nxt += [(s3, v if isinstance(v, Exc) else vals + [v]) for s3, v in self.eval(node.elt, s2)]
            runs = nxt
        out = []
        for s, v in runs:
            s = s.copy()
            s.env = dict(env0)
            out.append((s, v))
        return out

    def comp_concrete(self, node, st, elts, it, env0):
        g = node.generators[0]
        items = []
        npc = len(st.pc)
        for e in it:
            b = self.bind(st, g.target, e)
            s = b[0][0]
            keep = True
            for i in g.ifs:
                rs = self.eval(i, s)
                if len(rs) != 1:
                    raise Unsupported("forking filter")
                s = rs[0][0]
                keep = AND(keep, self.truth(*rs[0]))
            if not isinstance(keep, bool):
                raise Unsupported("symbolic filter of a concrete list")
            if not keep:
                continue
            vs = []
            for el in elts:
                rs = self.eval(el, s)
                if len(rs) != 1 or isinstance(rs[0][1], Exc):
                    raise Unsupported("forking comprehension")
                s = rs[0][0]
                vs.append(rs[0][1])
            items.append(vs)
            st = s
        st = st.copy()
        st.env = env0
        return st, [], True, None, items

    def e_ListComp(self, node, st):
        def build(s, vs, c, vals, items):
            if items is not None:
                return [(s, self.alloc(s, LstO([("one", self.freeze(s, v[0])) for v in items])))]
            return [(s, self.alloc(s, LstO([Gen(vs, c, vals[0], order)])))]
        order = None
        if len(node.generators) == 1:
            rs = self.eval(node.generators[0].iter, st)
            if len(rs) == 1 and not isinstance(rs[0][1], Exc):
                s, v = rs[0]
                it = self.iterate(s, v)
                if isinstance(it, list):
                    return [(s2, x if isinstance(x, Exc) else self.alloc(s2, LstO([("one", self.freeze(s2, y)) for y in x]))) for s2, x in self.comp_forks(node, s.copy(), it)]
                if isinstance(it, Gen) and not node.generators[0].ifs and isinstance(it.seq, tuple) and it.seq[0] in ("dict", "listed"):
                    # in the order of what it runs through
                    order = ("listed",) + it.seq[1:]
                if isinstance(it, Cat):
                    parts = []
                    for piece in it.pieces():
                        s, vs, c, vals, items = self.comp(node, s, [node.elt], tuple(piece) if isinstance(piece, list) else piece)
                        s = s.copy()
                        parts += [("one", self.freeze(s, x[0])) for x in items] if items is not None else [Gen(vs, c, vals[0])]
                    return [(s, self.alloc(s, LstO(parts)))]
        return self.comps(node, st, [node.elt], build)

    def e_GeneratorExp(self, node, st):
        def build(s, vs, c, vals, items):
            if items is not None:
                return [(s, self.alloc(s, LstO([("one", v[0]) for v in items])))]
            return [(s, Gen(vs, c, vals[0]))]
        if len(node.generators) == 1:
            rs = self.eval(node.generators[0].iter, st)
            if len(rs) == 1 and not isinstance(rs[0][1], Exc):
                s, v = rs[0]
                it = self.iterate(s, v)
                if isinstance(it, list):
                    return [(s2, x if isinstance(x, Exc) else self.alloc(s2, LstO([("one", y) for y in x]))) for s2, x in self.comp_forks(node, s.copy(), it)]
        return self.comps(node, st, [node.elt], build)

    def e_SetComp(self, node, st):
        def build(s, vs, c, vals, items):
            if items is not None:
                raise Unsupported("set of a concrete list")
            return [(s, self.alloc(s, self.to_set(Gen(vs, c, vals[0]))))]
        return self.comps(node, st, [node.elt], build)

    def to_set(self, g):
        k = self.key(g.elem, None) if not z3.is_expr(g.elem) else g.elem
        if len(g.vars) == 1 and k.eq(g.vars[0]):
            v = g.vars[0]
            return SetO(v.sort(), lambda q: sub(g.cond, [(v, q)]))

        def mem(q):
            ws = [var(v.sort()) for v in g.vars]
            c, e = g.at(ws)
            b = AND(c, EQ(e if z3.is_expr(e) else self.key(e, None), q))
            return b if isinstance(b, bool) else z3.Exists(ws, b)
        return SetO(k.sort(), mem)

    def e_DictComp(self, node, st):
        def build(s, vs, c, vals, items):
            if items is not None:
                if items and all(isinstance(k, str) for k, _ in items):
                    return [(s, self.alloc(s, CDict({k: v for k, v in items})))]
                d = self.empty()
                for k, v in items:
                    kk = self.key(k, d.ksort)
                    if d.ksort is None:
                        d = self.empty(kk.sort())
                    d = d.put(kk, self.freeze(s, v), self)
                return [(s, self.alloc(s, d))]
            s, d = self.to_dict(s, vs, c, vals[0], vals[1])
            return [(s, self.alloc(s, d))]
        return self.comps(node, st, [node.key, node.value], build)

    def to_dict(self, st, vs, c, k, v):
        k = self.key(k, None)
        if len(vs) == 1 and k.eq(vs[0]):
            x = vs[0]
            d = DictO(x.sort(), lambda q: sub(c, [(x, q)]), lambda q: sub(v, [(x, q)]))
            if self.x is not None and x.sort() == self.xsort:
                d.E = self.comp_E(st, x, c, v)
            return st, d
        st, mem, wit = self.image(st, vs, c, k)
        return st, DictO(k.sort(), mem, lambda q: sub(v, list(zip(vs, wit(q)))))

    def comp_E(self, st, x, c, v):
        """ghost functional of a comprehension: known when it rescales a dictionary"""
        if not (z3.is_expr(v) and z3.is_arith(v) or isinstance(v, (int, float))):
            return None
        for o in list(st.heap.values()):
            if isinstance(o, DictO) and o.E is not None and o.ksort == x.sort():
                dv = o.val(x)
                if not (z3.is_expr(dv) and z3.is_arith(dv)):
                    continue
                pc = st.pcs()
                if not self.proves(pc, zb(IFF(c, o.dom(x))), 500):
                    continue
                for cand in self.scales:
                    if self.proves(pc, IMP(c, EQ(v, real(cand) * real(dv))), 500):
                        return real(cand) * o.E
        return None

    scales = (1, -1)

    def image(self, st, vs, c, k):
        """membership in {k(vs): c} with a witness function (the last writer)"""
        ws = [self.fresh("wit", v.sort(), k.sort()) for v in vs]

        def wit(q):
            return [w(q) for w in ws]

        def mem(q):
            ps = list(zip(vs, wit(q)))
            return AND(sub(c, ps), EQ(sub(k, ps), q))
        st = st.copy()
        ax = z3.ForAll(vs, z3.Implies(zb(c), zb(mem(k))))
        st.pc.append((ax, False))
        return st, mem, wit

    # ------------------------------------------------------------------- calls
    def e_Lambda(self, node, st):
        return [(st, Fn(node, self.stack[-1].mod, None, "lambda", closure=dict(st.env)))]

    def e_Starred(self, node, st):
        raise Unsupported("starred argument")

    def e_Call(self, node, st):
        if isinstance(node.func, ast.Name) and node.func.id == "map" and "map" not in st.env and len(node.args) == 2 and not node.keywords:
            x = ast.Name("_mapped", ast.Load())
            n = ast.GeneratorExp(ast.Call(node.args[0], [x], []), [ast.comprehension(ast.Name("_mapped", ast.Store()), node.args[1], [], 0)])
            return self.eval(ast.fix_missing_locations(ast.copy_location(n, node)), st)
        kws = [k for k in node.keywords]

        def f(s, fn):
            def g(s2, vs):
                n = len(node.args)
                args, kv = [], vs[n:]
                for a, v in zip(node.args, vs):
                    if not isinstance(a, ast.Starred):
                        args.append(v)
                    elif isinstance(v, tuple):
                        args += list(v)
                    elif isinstance(v, Ref) and isinstance(s2.heap[v.a], LstO) and all(isinstance(p, tuple) for p in s2.heap[v.a].parts):
                        args += [p[1] for p in s2.heap[v.a].parts]
                    elif isinstance(fn, Bn) and fn.name.split(".")[-1] in self.stubs:
                        args.append(Star(v))
                    else:
                        raise Unsupported("starred argument")
                kw = {}
                for k, v in zip(kws, kv):
                    if k.arg is None:
                        if isinstance(v, Ref) and isinstance(s2.heap[v.a], CDict):
                            kw.update(s2.heap[v.a].items)
                        elif isinstance(v, Ref) and isinstance(s2.heap[v.a], DictO) and s2.heap[v.a].ksort is None:
                            pass
                        else:
                            raise Unsupported("** of a symbolic dictionary")
                    else:
                        kw[k.arg] = v
                return self.call(s2, fn, args, kw)
            return self.thens(self.evals([a.value if isinstance(a, ast.Starred) else a for a in node.args] + [k.value for k in kws], s), g)
        return self.then(self.eval(node.func, st), f)

    def call(self, st, fn, args, kw):
        if isinstance(fn, Fn):
            return self.call_fn(st, fn, args, kw)
        if isinstance(fn, Bn):
            return self.builtin(st, fn.name, args, kw)
        if isinstance(fn, Bd):
            return self.libmethod(st, fn.obj, fn.attr, args, kw)
        if isinstance(fn, Native):
            return fn.call(self, st, args, kw)
        raise Unsupported(f"call of {type(fn).__name__}")

    def call_fn(self, st, fn, args, kw):
        if fn.node is None:
            return self.stubs[fn.name](self, st, [fn.self_val] + args, kw)
        for nm in ((f"{fn.cls[1]}.{fn.name}",) if fn.cls else ()) + (fn.name,):
            if nm in self.stubs and nm != self.cur_fn:
                return self.stubs[nm](self, st, ([fn.self_val] if fn.self_val is not None else []) + args, kw)
        if fn.name == "eprint" and fn.self_val is None and fn.cls is None:
            return [(st, None)]
        if self.depth > 12:
            raise Unsupported("call depth")
        if fn.self_val is not None:
            args = [fn.self_val] + args
        self.inlined.add(fn.name)
        return self.run(st, fn, args, kw)

    cur_fn = None

    def run(self, st, fn, args, kw):
        """execute a function body: [(state, value|Exc)]"""
        node = fn.node
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        kw = dict(kw)
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        caller = st.env
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in env:
                self.stack.append(Fn(node, fn.mod))
                rs = self.eval(d, st)
                self.stack.pop()
                st, env[n] = rs[0]
        if a.kwarg is not None:
            st = st.copy()
            env[a.kwarg.arg] = self.alloc(st, CDict(kw)) if kw else self.alloc(st, CDict({}))
        elif kw:
            raise Unsupported(f"unexpected keyword {sorted(kw)}")
        missing = [n for n in names if n not in env]
        if missing:
            raise Unsupported(f"missing argument {missing}")
        s = St(env, st.heap, st.pc)
        self.stack.append(fn)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                outs = [(s2, ("ret", v) if not isinstance(v, Exc) else ("exc", v.name)) for s2, v in self.eval(node.body, s)]
            else:
                outs = self.block(node.body, s)
        finally:
            self.stack.pop()
            self.depth -= 1
        res = []
        for s2, o in outs:
            s2 = St(caller, s2.heap, s2.pc)
            res.append((s2, Exc(o[1]) if o[0] == "exc" else (o[1] if o[0] == "ret" else None)))
        return res

    NOOP = {"warn", "warnings.warn", "print", "collect", "gc.collect", "inflation/utils.py:eprint", "eprint"}

    def builtin(self, st, name, args, kw):
        short = name.split(".")[-1] if not name.startswith("class:") else name
        for nm in (name, short):
            if nm in self.stubs:
                return self.stubs[nm](self, st, args, kw)
        self.used_lib.add(name)
        if name in self.NOOP:
            return [(st, None)]
        base = name.replace("numpy.", "np.")
        if base in ("np.isclose", "isclose"):
            a, b = real(args[0]), real(args[1])
            return [(st, isclose(a, b))]
        if base in ("np.abs", "abs", "np.absolute"):
            v = args[0]
            if isnum(v):
                return [(st, abs(v) if not z3.is_expr(v) else z3.If(v >= 0, v, -v))]
        if base == "np.isnan":
            v = args[0]
            out = []
            for s, t in self.fork(st, isreal(real(v))):
                out.append((s, isnan(real(v))) if t else (s, Exc("TypeError")))
            return out
        if base == "tqdm" or base.endswith("tqdm.tqdm") or base.endswith(".tqdm"):
            return [(st, args[0])]
        if base == "len":
            return self.length(st, args[0])
        if base in ("max", "min") and len(args) == 2 and all(isnum(x) for x in args):
            return [(st, self.extreme(base, *args))]
        if base in ("max", "min") and len(args) == 1 and set(kw) <= {"default"}:
            it = self.iterate(st, args[0])
            if isinstance(it, list) and all(isnum(x) for x in it) and (it or "default" in kw):
                m = it[0] if it else kw["default"]
                for x in it[1:]:
                    m = self.extreme(base, m, x)
                return [(st, m)]
        if base == "float" and isnum(args[0]):
            return [(st, real(args[0]) if z3.is_expr(args[0]) else float(args[0]))]
        if base == "dict":
            st = st.copy()
            if not args:
                return [(st, self.alloc(st, CDict(kw) if kw else self.empty()))]
            v = args[0]
            if isinstance(v, Ref) and isinstance(st.heap[v.a], (DictO, CDict)):
                o = st.heap[v.a]
                return [(st, self.alloc(st, DictO(o.ksort, o.dom, o.val, None, o.E) if isinstance(o, DictO) else CDict(o.items)))]
            if isinstance(v, Gen) and isinstance(v.elem, tuple) and len(v.elem) == 2:
                st, d = self.to_dict(st, v.vars, v.cond, *v.elem)
                return [(st, self.alloc(st, d))]
        if base in ("collections.defaultdict", "defaultdict"):
            st = st.copy()
            if len(args) == 1 and isinstance(args[0], Bn) and args[0].name in ("int", "float"):
                return [(st, self.alloc(st, self.empty(None, 0)))]
        if base in ("collections.Counter", "Counter") and not args and not kw:
            st = st.copy()
            return [(st, self.alloc(st, self.empty(None, COUNTER)))]
        if base in ("collections.Counter", "Counter") and len(args) == 1 and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], DictO):
            o = st.heap[args[0].a]
            st = st.copy()
            return [(st, self.alloc(st, DictO(o.ksort, o.dom, o.val, COUNTER, o.E)))]
        if base in ("set", "frozenset"):
            st = st.copy()
            if not args:
                return [(st, self.alloc(st, LazySet()))]
            return [(st, self.alloc(st, self.as_set(st, args[0])))]
        if base in ("list", "tuple"):
            st = st.copy()
            if not args:
                return [(st, self.alloc(st, LstO()) if base == "list" else ())]
            v = args[0]
            if isinstance(v, tuple):
                return [(st, self.alloc(st, LstO([("one", x) for x in v])) if base == "list" else v)]
            if base == "list" and isinstance(v, Ref) and isinstance(st.heap[v.a], LstO):
                return [(st, self.alloc(st, LstO(st.heap[v.a].parts)))]
            it = self.iterate(st, v)
            if isinstance(it, list):
                return [(st, self.alloc(st, LstO([("one", x) for x in it])) if base == "list" else tuple(it))]
            if isinstance(it.seq, tuple) and it.seq[0] == "dict":
                # what is listed does not change with the dictionary any more
                it = Gen(it.vars, it.cond, it.elem, ("listed",) + it.seq[1:])
            return [(st, self.alloc(st, LstO([it])))]
        if base == "hasattr" and args[1] == "__iter__" and (isinstance(args[0], (tuple, Gen)) or isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], (LstO, DictO, SetO))):
            return [(st, True)]
        if base == "hasattr" and z3.is_expr(args[0]) and isinstance(args[1], str):
            p = self.attrs.get((args[0].sort().name(), "hasattr"))
            if p is not None:
                return [(st, p(args[0], args[1]))]
        if base == "hasattr" and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], RecO) and isinstance(args[1], str):
            r = st.heap[args[0].a]
            if args[1] in r.attrs:
                return [(st, r.attrs[args[1]] is not ABSENT)]
            if self.method(r.cls, args[1]) is not None:
                return [(st, True)]
            raise Unsupported("hasattr of an unknown attribute")
        if base == "getattr" and len(args) == 2 and isinstance(args[1], str):
            return self.attribute(st, args[0], args[1])
        if base == "setattr" and isinstance(args[0], Ref) and isinstance(st.heap[args[0].a], RecO) and isinstance(args[1], str):
            r = st.heap[args[0].a]
            st = st.copy()
            st.heap[args[0].a] = RecO(r.cls, dict(r.attrs, **{args[1]: args[2]}))
            return [(st, None)]
        if base == "dict.fromkeys" and len(args) == 2:
            it = self.iterate(st, args[0])
            if isinstance(it, Gen):
                st, d = self.to_dict(st, it.vars, it.cond, it.elem, self.freeze(st, args[1]))
                return [(st, self.alloc(st, d))]
        if base in ("any", "all"):
            it = self.iterate(st, args[0])
            if isinstance(it, list):
                ts = [self.truth(st, x) for x in it]
                return [(st, OR(*ts) if base == "any" else AND(*ts))]
            t = self.truth(st, it.elem)
            b = AND(it.cond, t) if base == "any" else IMP(it.cond, t)
            if isinstance(b, bool):
                if base == "any" and b is False:
                    return [(st, False)]
                if base == "all" and b is True:
                    return [(st, True)]
            return [(st, z3.Exists(it.vars, zb(b)) if base == "any" else z3.ForAll(it.vars, zb(b)))]
        if base == "bool" and len(args) == 1 and not kw:
            return [(st, self.truth(st, args[0]))]
        if base == "sum":
            it = self.iterate(st, args[0])
            if isinstance(it, list):
                t = 0
                for x in it:
                    t = self.binop(st, ast.Add(), t, x)[0][1]
                return [(st, t)]
            return [(st, self.SUM(it.vars, it.cond, it.elem))]
        if base == "isinstance":
            return [(st, self.isinst(st, args[0], args[1]))]
        if base == "type":
            return [(st, ("type", args[0]))]
        if base == "str" and isinstance(args[0], (str,)):
            return [(st, args[0])]
        if base in ("str", "repr"):
            v = args[0]
            if z3.is_expr(v):
                p = self.attrs.get((v.sort().name(), "str"))
                if p is not None:
                    return [(st, p(v))]
            return [(st, TEXT)]
        if base == "delattr":
            v, nm = args
            if isinstance(v, Ref) and isinstance(st.heap[v.a], RecO) and isinstance(nm, str):
                r = st.heap[v.a]
                if r.attrs.get(nm) is ABSENT:
                    return [(st, Exc("AttributeError"))]
                a = dict(r.attrs)
                a[nm] = ABSENT
                st = st.copy()
                st.heap[v.a] = RecO(r.cls, a)
                return [(st, None)]
        if base == "zip":
            its = [self.iterate(st, a) for a in args]
            if all(isinstance(i, list) for i in its):
                return [(st, tuple(zip(*its)))]
            if len(its) == 2 and all(isinstance(i, Gen) for i in its) and its[0].seq is not None and its[0].seq == its[1].seq:
                ps = list(zip(its[1].vars, its[0].vars))
                # sequences in index order stop with the shorter one
                c = its[0].cond if isinstance(its[0].seq, tuple) else AND(its[0].cond, sub(its[1].cond, ps))
                return [(st, Gen(its[0].vars, c, (its[0].elem, sub(its[1].elem, ps)), its[0].seq))]
        if base == "enumerate":
            it = self.iterate(st, args[0])
            if isinstance(it, list):
                return [(st, tuple(enumerate(it)))]
            if it.seq == "index" and len(it.vars) == 1:
                return [(st, Gen(it.vars, it.cond, (it.vars[0], it.elem), it.seq))]
        if base == "Exception" or base.endswith("Error"):
            return [(st, ("exception", base))]
        raise Unsupported(f"call of {name}")

    def extreme(self, which, a, b):
        if all(isinstance(x, (int, float)) for x in (a, b)):
            return max(a, b) if which == "max" else min(a, b)
        if all(isinstance(x, int) or z3.is_expr(x) and z3.is_int(x) for x in (a, b)):
            a, b = [z3.IntVal(x) if isinstance(x, int) else x for x in (a, b)]
        else:
            a, b = real(a), real(b)
        return z3.If(a >= b, a, b) if which == "max" else z3.If(a <= b, a, b)

    def default(self, st, name, args, kw):
        """a library function as it is without its stub"""
        mine = self.stubs
        self.stubs = {k: v for k, v in mine.items() if k != name}
        try:
            return self.builtin(st, name, args, kw)
        finally:
            self.stubs = mine

    def isinst(self, st, v, t):
        names = [t] if not isinstance(t, tuple) else list(t)
        out = []
        for n in names:
            if not isinstance(n, Bn):
                raise Unsupported("isinstance")
            nm = n.name.split(".")[-1].split(":")[-1]
            if z3.is_expr(v) and z3.is_real(v):
                out.append(isreal(v) if nm == "Real" else False)
            elif isinstance(v, (int, float)):
                out.append(nm in ("Real", type(v).__name__))
            elif z3.is_expr(v):
                p = self.attrs.get((v.sort().name(), "isinstance"))
                if p is None:
                    raise Unsupported(f"isinstance of {v.sort()}")
                out.append(p(v, nm))
            elif isinstance(v, str):
                out.append(nm == "str")
            elif v is None:
                out.append(nm == "NoneType")
            elif isinstance(v, Ref) and isinstance(st.heap[v.a], HeapNative):
                out.append(st.heap[v.a].isinstance(nm))
            elif isinstance(v, Ref):
                o = st.heap[v.a]
                out.append({"DictO": "dict", "CDict": "dict", "SetO": "set", "LstO": "list", "ArrO": "ndarray"}.get(type(o).__name__) == nm)
            else:
                raise Unsupported(f"isinstance of {type(v).__name__}")
        return OR(*out)

    def length(self, st, v):
        if isinstance(v, Native):
            return v.length(self, st)
        if isinstance(v, Ref) and isinstance(st.heap[v.a], HeapNative):
            return st.heap[v.a].length(self, st, v)
        if isinstance(v, (tuple, str)):
            return [(st, len(v))]
        if z3.is_expr(v):
            p = self.attrs.get((v.sort().name(), "len"))
            if p is not None:
                return [(st, p(v))]
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, CDict):
                return [(st, len(o.items))]
            if isinstance(o, DictO) and o.ksort is None:
                return [(st, 0)]
            if isinstance(o, LstO) and all(isinstance(p, tuple) for p in o.parts):
                return [(st, len(o.parts))]
            if isinstance(o, LazySet):
                return [(st, 0)]
            if isinstance(o, ArrO):
                return [(st, o.shape[0])]
            if isinstance(o, LstO) and len(o.parts) == 1 and isinstance(o.parts[0].seq, tuple) and o.parts[0].seq[0] in ("dict", "listed"):
                # as long as what it was made of, one entry each
                o = self.pins[o.parts[0].seq[2]]
                st = st.copy()
                v = self.alloc(st, o)
            if isinstance(o, (DictO, SetO, LstO)):
                n = self.HOF("len", (o,), I)
                s = st.assume(n >= 0)
                if isinstance(o, LstO) and len(o.parts) == 1 and not isinstance(o.parts[0], tuple) and o.parts[0].seq == "index" and len(o.parts[0].vars) == 1:
                    k = o.parts[0].vars[0]
                    s = s.assume(z3.ForAll([k], zb(IFF(o.parts[0].cond, z3.And(0 <= k, k < n)))))
                ne = self.truth(s, v)
                s = s.assume(z3.And(zb(ne) == (n > 0)))
                if isinstance(o, (DictO, SetO)):
                    dom = o.dom if isinstance(o, DictO) else o.mem
                    two = EX([o.ksort, o.ksort], lambda p, q: AND(dom(p), dom(q), NOT(EQ(p, q))))
                    s = s.assume(zb(two) == (n > 1))
                return [(s, n)]
        raise Unsupported(f"len of {type(v).__name__}")

    def as_set(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.a]
            if isinstance(o, SetO):
                return SetO(o.ksort, o.mem)
            if isinstance(o, DictO):
                if o.ksort is None:
                    return LazySet()
                return SetO(o.ksort, o.dom)
        it = self.iterate(st, v)
        if isinstance(it, list):
            if not it:
                return LazySet()
            srt = next((x.sort() for x in it if z3.is_expr(x)), None)
            if srt is None:
                raise Unsupported("set of constants")
            ks = [self.key(x, srt) for x in it]
            return SetO(srt, lambda q: OR(*[EQ(q, k) for k in ks]))
        return self.to_set(it)

    MUTATORS = {"append", "extend", "update", "pop", "setdefault", "clear", "add", "discard", "remove", "insert", "popitem", "difference_update", "intersection_update",
                "sort", "reverse"}

    def libmethod(self, st, obj, attr, args, kw):
        if attr in self.MUTATORS:
            self.changing(obj)
        if isinstance(obj, Ref):
            o = st.heap[obj.a]
            if isinstance(o, HeapNative):
                return o.method(self, st, obj, attr, args, kw)
            if isinstance(o, (DictO, CDict)):
                return self.dict_method(st, obj, o, attr, args, kw)
            if isinstance(o, (SetO, LazySet)):
                return self.set_method(st, obj, o, attr, args, kw)
            if isinstance(o, LstO):
                if attr == "append":
                    st = st.copy()
                    st.heap[obj.a] = LstO(o.parts + (("one", self.freeze(st, args[0])),))
                    return [(st, None)]
                if attr == "extend":
                    it = self.iterate(st, args[0])
                    st = st.copy()
                    st.heap[obj.a] = LstO(o.parts + (tuple(it.parts) if isinstance(it, Cat) else tuple(("one", x) for x in it) if isinstance(it, list) else (it,)))
                    return [(st, None)]
                if attr == "copy":
                    st = st.copy()
                    return [(st, self.alloc(st, LstO(o.parts)))]
        if isinstance(obj, Gen):
            if attr in ("intersection", "difference", "union", "issubset", "isdisjoint"):
                st = st.copy()
                r = self.alloc(st, self.to_set(obj))
                return self.set_method(st, r, st.heap[r.a], attr, args, kw)
        if isinstance(obj, str) or isinstance(obj, Text):
            if attr in ("join", "format"):
                return [(st, TEXT)]
        if z3.is_expr(obj):
            p = self.attrs.get((obj.sort().name(), attr + "()"))
            if p is not None:
                return p(self, st, obj, args, kw)
        raise Unsupported(f"method {attr} of {type(st.heap[obj.a]).__name__ if isinstance(obj, Ref) else (obj.sort() if z3.is_expr(obj) else type(obj).__name__)}")

    def dict_method(self, st, ref, o, attr, args, kw):
        if isinstance(o, CDict):
            if attr == "get" and isinstance(args[0], str):
                return [(st, o.items.get(args[0], args[1] if len(args) > 1 else None))]
            if attr == "update":
                st = st.copy()
                d = dict(o.items)
                for a in args:
                    b = st.heap[a.a] if isinstance(a, Ref) else None
                    if isinstance(b, DictO) and b.ksort is None:
                        continue
                    if not isinstance(b, CDict):
                        raise Unsupported("update of a concrete dictionary")
                    d.update(b.items)
                d.update(kw)
                st.heap[ref.a] = CDict(d)
                return [(st, None)]
            if attr in ("keys", "items", "values"):
                return [(st, {"keys": tuple(o.items), "items": tuple(o.items.items()), "values": tuple(o.items.values())}[attr])]
            if attr == "copy":
                st = st.copy()
                return [(st, self.alloc(st, CDict(o.items)))]
            if attr == "pop" and 1 <= len(args) <= 2 and isinstance(args[0], str) and not kw:
                if args[0] not in o.items:
                    return [(st, args[1] if len(args) == 2 else Exc("KeyError"))]
                st = st.copy()
                st.heap[ref.a] = CDict({k: v for k, v in o.items.items() if k != args[0]})
                return [(st, o.items[args[0]])]
            raise Unsupported(f"method {attr} of a concrete dictionary")
        if attr in ("items", "keys", "values"):
            if o.ksort is None:
                return [(st, ())]
            k = var(o.ksort, "k")
            v = o.val(k)
            return [(st, Gen([k], o.dom(k), {"items": (k, v), "keys": k, "values": v}[attr], seq=("dict", ref.a, self.pin(o))))]
        if attr == "copy":
            st = st.copy()
            return [(st, self.alloc(st, DictO(o.ksort, o.dom, o.val, o.default, o.E)))]
        if attr == "clear":
            st = st.copy()
            st.heap[ref.a] = self.empty(o.ksort, o.default)
            st.heap[ref.a].keys = None
            return [(st, None)]
        if attr == "get":
            dflt = args[1] if len(args) > 1 else None
            if o.ksort is None:
                return [(st, dflt)]
            k = self.key(args[0], o.ksort)
            v = o.val(k)
            if isinstance(v, Undef):
                return [(st, dflt)]
            if isinstance(v, (DictO, SetO, LstO)) or dflt is None:
                out = []
                for s, t in self.fork(st, o.dom(k)):
                    if t:
                        out.append(self.thaw(s, v))
                    else:
                        out.append((s, dflt))
                return out
            return [(st, IT(o.dom(k), v, dflt))]
        if attr == "pop":
            if o.ksort is None:
                return [(st, args[1] if len(args) > 1 else Exc("KeyError"))]
            k = self.key(args[0], o.ksort)
            if len(args) > 1:
                v = o.val(k)
                try:
                    r = args[1] if isinstance(v, Undef) else IT(o.dom(k), v, args[1])
                except Unsupported:
                    r = None if args[1] is not None else UNDEF
                    if r is None:
                        raise
                st = st.copy()
                st.heap[ref.a] = o.drop(k, self)
                return [(st, r)]
            out = []
            for s, t in self.fork(st, o.dom(k)):
                if t:
                    s = s.copy()
                    s.heap[ref.a] = o.drop(k, self)
                    out.append(self.thaw(s, o.val(k)))
                else:
                    out.append((s, Exc("KeyError")))
            return out
        if attr == "setdefault":
            k = self.key(args[0], o.ksort)
            d = o if o.ksort is not None else self.empty(k.sort(), o.default)
            v = IT(d.dom(k), d.val(k), args[1])
            st = st.copy()
            E = d.E
            p = d.put(k, v, self)
            st.heap[ref.a] = p
            return [(st, v)]
        if o.default is COUNTER:
            h = self.stubs.get("Counter." + attr)
            if h is not None:
                return h(self, st, [ref] + args, kw)
            raise Unsupported(f"method {attr} of a Counter")
        if attr == "update":
            st = st.copy()
            a = args[0]
            if isinstance(a, Ref) and isinstance(st.heap[a.a], DictO):
                b = st.heap[a.a]
                if b.ksort is None:
                    return [(st, None)]
                if o.ksort is None:
                    st.heap[ref.a] = DictO(b.ksort, b.dom, b.val, o.default, b.E)
                    return [(st, None)]
                od, ov, bd, bv = o.dom, o.val, b.dom, b.val
                st.heap[ref.a] = DictO(o.ksort, lambda q: OR(bd(q), od(q)), lambda q: IT(bd(q), bv(q), ov(q)), o.default, None, None)
                return [(st, None)]
        raise Unsupported(f"method {attr} of a dictionary")

    def set_method(self, st, ref, o, attr, args, kw):
        if isinstance(o, LazySet):
            if attr in ("add",):
                k = self.key(args[0], None)
                st = st.copy()
                st.heap[ref.a] = SetO(k.sort(), lambda q: EQ(q, k), (k,))
                return [(st, None)]
            if attr == "update":
                st = st.copy()
                st.heap[ref.a] = self.as_set(st, args[0])
                return [(st, None)]
            if attr in ("discard",):
                return [(st, None)]
            raise Unsupported(f"method {attr} of an empty set")
        m = o.mem
        if attr in ("add", "discard", "remove"):
            k = self.key(args[0], o.ksort)
            if attr == "remove":
                raise Unsupported("set.remove")
            st = st.copy()
            st.heap[ref.a] = SetO(o.ksort, (lambda q: OR(EQ(q, k), m(q))) if attr == "add" else (lambda q: AND(NOT(EQ(q, k)), m(q))), addk(o.keys, k))
            return [(st, None)]
        if attr in ("intersection", "difference", "union", "issubset", "isdisjoint", "update", "difference_update", "intersection_update"):
            st = st.copy()
            b = args[0]
            bm = lambda q, st=st: self.member(st, q, b)
            if attr == "issubset":
                return [(st, FA(o.ksort, lambda q: IMP(m(q), bm(q))))]
            if attr == "isdisjoint":
                return [(st, FA(o.ksort, lambda q: NOT(AND(m(q), bm(q)))))]
            mem = {"intersection": lambda q: AND(m(q), bm(q)), "difference": lambda q: AND(m(q), NOT(bm(q))),
                   "union": lambda q: OR(m(q), bm(q)), "update": lambda q: OR(m(q), bm(q)),
                   "difference_update": lambda q: AND(m(q), NOT(bm(q))), "intersection_update": lambda q: AND(m(q), bm(q))}[attr]
            if attr.endswith("update"):
                st.heap[ref.a] = SetO(o.ksort, mem, None)
                return [(st, None)]
            return [(st, self.alloc(st, SetO(o.ksort, mem)))]
        if attr == "copy":
            st = st.copy()
            return [(st, self.alloc(st, SetO(o.ksort, m)))]
        if attr == "pop" and not args and not kw:
            # any element, which is taken out
            out = []
            for s, some in self.fork(st, EX(o.ksort, m)):
                if not some:
                    out.append((s, Exc("KeyError")))
                    continue
                s = s.copy()
                k = self.fresh("popped", o.ksort)
                s.pc.append((zb(m(k)), False))
                s.heap[ref.a] = SetO(o.ksort, lambda q: AND(m(q), NOT(EQ(q, k))), None)
                out.append((s, k))
            return out
        raise Unsupported(f"method {attr} of a set")

    # --------------------------------------------------------------- statements
    def block(self, stmts, st):
        outs = [(st, ("next",))]
        for n in stmts:
            nxt = []
            for s, o in outs:
                nxt += [(s, o)] if o[0] != "next" else self.stmt(n, s)
            outs = nxt
        return outs

    def stmt(self, node, st):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(node).__name__} at line {node.lineno}")
        return m(node, st)

    def fin(self, rs, f=None):
        """expression results to statement outcomes"""
        out = []
        for s, v in rs:
            if isinstance(v, Exc):
                out.append((s, ("exc", v.name)))
            elif f is None:
                out.append((s, ("next",)))
            else:
                out += f(s, v)
        return out

    def s_Pass(self, node, st):
        return [(st, ("next",))]

    def s_Import(self, node, st):
        return [(st, ("next",))]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, node, st):
        st = st.copy()
        st.env[node.name] = Fn(node, self.stack[-1].mod, None, node.name, closure=st.env)
        return [(st, ("next",))]

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [(st, ("next",))]
        return self.fin(self.eval(node.value, st))

    def s_Assign(self, node, st):
        def f(s, v):
            outs = [(s, None)]
            for t in node.targets:
                nxt = []
                for s2, e in outs:
                    nxt += [(s2, e)] if e else self.bind(s2, t, v)
                outs = nxt
            return self.fin(outs)
        return self.fin(self.eval(node.value, st), f)

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [(st, ("next",))]
        return self.fin(self.eval(node.value, st), lambda s, v: self.fin(self.bind(s, node.target, v)))

    def inplace(self, st, op, a, b):
        """`a op= b`: containers are changed where they are"""
        if isinstance(a, Ref):
            o = st.heap[a.a]
            if isinstance(o, HeapNative) and hasattr(o, "inplace"):
                return o.inplace(self, st, a, type(op).__name__, b)
            how = {(LstO, ast.Add): "extend", (SetO, ast.BitOr): "update", (DictO, ast.BitOr): "update", (SetO, ast.Sub): "difference_update"}.get((type(o), type(op)))
            if how is None or isinstance(o, DictO) and o.default is COUNTER:
                raise Unsupported(f"in-place {type(op).__name__} on {type(o).__name__}")
            return [(s, x if isinstance(x, Exc) else a) for s, x in self.libmethod(st, a, how, [b], {})]
        return self.binop(st, op, a, b)

    def s_AugAssign(self, node, st):
        t = node.target
        if isinstance(t, ast.Name):
            def f(s, vs):
                return self.then(self.inplace(s, node.op, vs[0], vs[1]), lambda s2, v: self.bind(s2, t, v))
            return self.fin(self.thens(self.evals([ast.Name(t.id, ast.Load()), node.value], st), f))
        if isinstance(t, ast.Subscript):
            def g(s, vs):
                o, k = vs

                def h(s2, old):
                    def w(s3, inc):
                        return self.then(self.inplace(s3, node.op, old, inc), lambda s4, v: self.put(s4, o, k, v))
                    return self.then(self.eval(node.value, s2), w)
                return self.then(self.item(s, o, k), h)
            return self.fin(self.thens(self.evals([t.value, t.slice], st), g))
        if isinstance(t, ast.Attribute):
            def g(s, o):
                def h(s2, old):
                    return self.then(self.eval(node.value, s2), lambda s3, inc: self.then(self.inplace(s3, node.op, old, inc), lambda s4, v: self.bind(s4, t, v)))
                return self.then(self.attribute(s, o, t.attr), h)
            return self.fin(self.then(self.eval(t.value, st), g))
        raise Unsupported("augmented assignment")

    def s_Delete(self, node, st):
        outs = [(st, ("next",))]
        for t in node.targets:
            nxt = []
            for s, o in outs:
                if o[0] != "next":
                    nxt.append((s, o))
                elif isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop(t.id, None)
                    nxt.append((s, o))
                elif isinstance(t, ast.Subscript):
                    nxt += self.fin(self.thens(self.evals([t.value, t.slice], s), lambda s2, vs: self.delete(s2, vs[0], vs[1])))
                else:
                    raise Unsupported("del")
            outs = nxt
        return outs

    def s_Return(self, node, st):
        if node.value is None:
            return [(st, ("ret", None))]
        return self.fin(self.eval(node.value, st), lambda s, v: [(s, ("ret", v))])

    def s_Raise(self, node, st):
        if node.exc is None:
            return [(st, ("exc", st.env.get("__exc__", "Exception")))]
        e = node.exc.func if isinstance(node.exc, ast.Call) else node.exc
        return [(st, ("exc", e.id if isinstance(e, ast.Name) else "Exception"))]

    def s_Assert(self, node, st):
        def f(s, v):
            return [(s2, ("next",) if t else ("exc", "AssertionError")) for s2, t in self.fork(s, self.truth(s, v))]
        return self.fin(self.eval(node.test, st), f)

    SAYS = {"warn", "print", "eprint"}

    def only_says(self, node, st):
        """an `if` that at most prints or warns, with a test that does nothing: skipped"""
        if node.orelse or not all(isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Name)
                                  and b.value.func.id in self.SAYS and b.value.func.id not in st.env for b in node.body):
            return False
        for x in ast.walk(node.test):
            if isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id == "len" and "len" not in st.env and len(x.args) == 1 and not x.keywords):
                    return False
            elif isinstance(x, ast.Attribute):
                if not isinstance(x.value, ast.Name):
                    return False
                r = self.eval(x, st)
                if len(r) != 1 or isinstance(r[0][1], Exc):
                    return False
            elif not isinstance(x, (ast.BoolOp, ast.And, ast.Or, ast.UnaryOp, ast.Not, ast.Compare, ast.cmpop, ast.Name, ast.Load, ast.Constant)):
                return False
        return True

    def s_If(self, node, st):
        if self.only_says(node, st):
            return [(st, ("next",))]
        def f(s, v):
            out = []
            for s2, t in self.fork(s, self.truth(s, v)):
                out += self.block(node.body if t else node.orelse, s2)
            return out
        return self.fin(self.eval(node.test, st), f)

    def s_Continue(self, node, st):
        return [(st, ("continue",))]

    def s_Break(self, node, st):
        return [(st, ("break",))]

    def s_Try(self, node, st):
        if node.finalbody:
            raise Unsupported("finally")
        out = []
        for s, o in self.block(node.body, st):
            if o[0] == "next" and node.orelse:
                out += self.block(node.orelse, s)
                continue
            if o[0] != "exc":
                out.append((s, o))
                continue
            for h in node.handlers:
                if self.catches(h.type, o[1]):
                    s = s.copy()
                    s.env["__exc__"] = o[1]
                    if h.name:
                        s.env[h.name] = TEXT
                    out += self.block(h.body, s)
                    break
            else:
                out.append((s, o))
        return out

    def catches(self, t, name):
        if t is None:
            return True
        ns = [e for e in t.elts] if isinstance(t, ast.Tuple) else [t]
        for n in ns:
            nm = n.id if isinstance(n, ast.Name) else n.attr
            if nm == name or nm in ("Exception", "BaseException") or (nm == "LookupError" and name in ("KeyError", "IndexError")):
                return True
        return False

    def s_With(self, node, st):
        if len(node.items) != 1:
            raise Unsupported("with")
        it = node.items[0]

        def f(s, v):
            if not (isinstance(v, Native) or isinstance(v, Ref) and isinstance(s.heap[v.a], HeapNative)):
                raise Unsupported("with")
            if it.optional_vars is None:
                return self.block(node.body, s)
            out = []
            for s2, e in self.bind(s, it.optional_vars, v):
                out += [(s2, ("exc", e.name))] if e else self.block(node.body, s2)
            return out
        out = []
        for s, v in self.eval(it.context_expr, st):
            out += [(s, ("exc", v.name))] if isinstance(v, Exc) else f(s, v)
        return out

    def s_While(self, node, st):
        raise Unsupported("while loop")

    # ------------------------------------------------------------------- loops
    def s_For(self, node, st):
        if node.orelse:
            if any(isinstance(n, ast.Break) for n in ast.walk(node)):
                raise Unsupported("for-else")
            plain = ast.copy_location(ast.For(node.target, node.iter, node.body, [], None), node)
            out = []
            for s, o in self.s_For(plain, st):
                out += self.block(node.orelse, s) if o[0] == "next" else [(s, o)]
            return out

        def f(s, v):
            it = self.iterate(s, v)
            if hasattr(it, "loop"):
                return it.loop(self, node, s)
            outs = [(s, ("next",))]
            for piece in (it.pieces() if isinstance(it, Cat) else [it]):
                nxt = []
                for s2, o in outs:
                    if o[0] != "next":
                        nxt.append((s2, o))
                    else:
                        nxt += self.unroll(node, s2, piece) if isinstance(piece, list) else self.keyed(node, s2, piece)
                outs = nxt
                if isinstance(it, Cat) and any(isinstance(n, ast.Break) for n in ast.walk(node)):
                    raise Unsupported("leaving a loop over several pieces")
            return outs
        return self.fin(self.eval(node.iter, st), f)

    def unroll(self, node, st, items):
        outs = [(st, ("next",))]
        for e in items:
            nxt = []
            for s, o in outs:
                if o[0] != "next":
                    nxt.append((s, o))
                    continue
                for s2, ex_ in self.bind(s, node.target, e):
                    if ex_:
                        nxt.append((s2, ("exc", ex_.name)))
                        continue
                    for s3, o3 in self.block(node.body, s2):
                        nxt.append((s3, ("next",) if o3[0] == "continue" else o3))
            outs = nxt
        return [(s, ("next",) if o[0] == "break" else o) for s, o in outs]

    def keyed(self, node, st, it):
        from .objloops import keyed_loop
        return keyed_loop(self, node, st, it)


class Cat:
    """a list made of several pieces, to be gone through one after the other"""
    def __init__(self, parts):
        self.parts = parts

    def pieces(self):
        return [[p[1]] if isinstance(p, tuple) else p for p in self.parts]


class LazySet:
    """an empty set whose element sort is not known yet"""
    ksort = None
    keys = ()

    @staticmethod
    def mem(q):
        return False


def isclose(a, b):
    return z3.Function("isclose", R, R, B)(a, b)


def isreal(v):
    return z3.Function("isreal", R, B)(v)


def isnan(v):
    return z3.Function("isnan", R, B)(v)


CLOSE_AXIOM = z3.ForAll([z3.Real("ica")], isclose(z3.Real("ica"), z3.Real("ica")))
