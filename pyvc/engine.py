"""Verification-condition generator for the Python/numpy subset used in /repo.

The functions are parsed from /repo's *current* source on every run and executed
symbolically, path by path.  Calls to functions under contract use the contract
(the requires clause becomes an obligation, the ensures clause an assumption);
other repository functions are executed in line.  Loops are summarised by rules
whose side conditions are themselves proved (search loops, pointwise writes,
accumulators), or by invariants from the sidecar contract files.  Anything
outside the subset raises Unsupported and the function counts as *not proved*.
"""
import ast
import itertools
import os
import time
import z3

from .values import *
from . import values as V

QUICK_MS = 250


class Obligation:
    def __init__(self, name, pc, goal, kind, func):
        self.name, self.pc, self.goal, self.kind, self.func = name, list(pc), goal, kind, func
        self.status = None
        self.time = 0.0
        self.solver = None
        self.reason = None
        self.model = None


class Module:
    def __init__(self, path, name):
        self.path, self.name = path, name
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for node in self.tree.body:
            self._top(node)

    def _top(self, node):
        if isinstance(node, ast.FunctionDef):
            self.funcs[node.name] = node
        elif isinstance(node, ast.ClassDef):
            self.classes[node.name] = {n.name: n for n in node.body
                                       if isinstance(n, ast.FunctionDef)}
        elif isinstance(node, ast.ImportFrom):
            for a in node.names:
                self.imports[a.asname or a.name] = ("from", "." * node.level + (node.module or ""), a.name)
        elif isinstance(node, ast.Import):
            for a in node.names:
                self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name, None)
        elif isinstance(node, ast.Try):
            for n in node.body:
                self._top(n)
        elif isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            self.consts[node.targets[0].id] = node.value


class Program:
    def __init__(self, root):
        self.root = root
        self.modules = {}

    def module(self, rel):
        if rel not in self.modules:
            self.modules[rel] = Module(os.path.join(self.root, rel), rel)
        return self.modules[rel]

    def resolve_import(self, mod, name):
        """repository module + function for an imported name, else None"""
        kind, m, orig = mod.imports[name]
        if kind != "from" or not m.startswith("."):
            if kind == "from" and m.startswith("inflation"):
                rel = m.replace(".", "/") + ".py"
                if os.path.exists(os.path.join(self.root, rel)):
                    return self.module(rel), orig
            return None
        level = len(m) - len(m.lstrip("."))
        base = os.path.dirname(mod.name)
        for _ in range(level - 1):
            base = os.path.dirname(base)
        tail = m.lstrip(".").replace(".", "/")
        rel = os.path.join(base, tail + ".py") if tail else None
        if rel and os.path.exists(os.path.join(self.root, rel)):
            return self.module(rel), orig
        return None


class Engine:
    def __init__(self, program, contracts=None, invariants=None, budget_s=120):
        self.P = program
        self.contracts = contracts or {}
        self.invs = invariants or []
        self.obls = []
        self.ctx = []           # generic loop indices / quantified context
        self.func_stack = []
        self.cur = "?"
        self.notes = []
        self.axioms = []        # global facts about fresh library symbols
        self.used_lib = set()
        self.inlined = set()
        self.rules = []         # loop rules used
        self.deadline = time.time() + budget_s
        self._fresh = itertools.count()
        self._rel_cache = {}
        from . import npmodel
        self.np = npmodel
        self.quiet = 0
        self.pending = []
        self.side_proofs = 0
        self.idx_arity = {}
        self.param_view = {}

    # ------------------------------------------------------------------ fresh
    def fresh(self, name, *sorts, dom=()):
        """fresh symbol; inside a generic loop context it is a function of the
        context indices.  dom: extra domain sorts -> returns a python callable"""
        rng = sorts[0] if sorts else z3.IntSort()
        nm = f"{name}!{next(self._fresh)}"
        cs = [c.sort() for c in self.ctx]
        if not cs and not dom:
            return z3.Const(nm, rng)
        f = z3.Function(nm, *cs, *dom, rng)
        cargs = tuple(self.ctx)
        if dom:
            def call(*a):
                return f(*cargs, *[V.zi(x) if d == z3.IntSort() else (V.zb(x) if d == z3.BoolSort() else x)
                                   for x, d in zip(a, dom)])
            call.decl = f
            return call
        return f(*cargs)

    def fresh_int(self, name):
        return self.fresh(name, z3.IntSort())

    def fresh_bool(self, name):
        return self.fresh(name, z3.BoolSort())

    def fresh_arr(self, name, shape, dtype="i", tag=False):
        dom = tuple(z3.IntSort() for _ in shape)
        rng = z3.BoolSort() if dtype == "b" else z3.IntSort()
        f = self.fresh(name, rng, dom=dom)
        self.idx_arity[f.decl.name()] = len(dom)
        t = self.fresh(name + "_tag", z3.IntSort(), dom=dom) if tag else None
        return A(shape, f, dtype, t, meta=getattr(f, "decl", None))

    # ---------------------------------------------------------------- solving
    def solver(self, ms):
        s = z3.Solver()
        s.set("timeout", int(ms))
        return s

    def feasible(self, st):
        """False only if the path condition is surely unsatisfiable"""
        if time.time() > self.deadline:
            raise Unsupported("symbolic execution budget exhausted")
        s = self.solver(QUICK_MS)
        s.add(*st.pc)
        return s.check() != z3.unsat

    def proves(self, pc, goal, ms=4000):
        g = to_bool(goal)
        if g is True:
            return True
        s = self.solver(ms)
        s.add(*pc)
        s.add(z3.Not(V.zb(g)))
        return s.check() == z3.unsat

    def oblige(self, st, goal, name, kind="post"):
        if self.quiet:
            return
        g = to_bool(goal)
        if g is True and kind in ("bounds",):
            return
        self.obls.append(Obligation(name, st.pc, V.zb(g), kind, self.cur))

    # --------------------------------------------------------------- branches
    def branch(self, st, cond):
        """[(state, bool)] for the feasible outcomes of cond"""
        c = to_bool(cond)
        if isinstance(c, bool):
            return [(st, c)]
        out = []
        t = st.assume(c)
        if self.feasible(t):
            out.append((t, True))
        f = st.assume(z3.Not(c))
        if self.feasible(f):
            out.append((f, False))
        return out

    # ------------------------------------------------------------ expressions
    def evals(self, nodes, st):
        """evaluate a list of expressions left to right"""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in outs:
                for s2, v in self.eval(n, s):
                    if isinstance(v, RaiseV) and len(nodes) > 1:
                        raise Unsupported("exception inside an expression")
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def eval(self, node, st):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__} at line {getattr(node, 'lineno', '?')}")
        return m(node, st)

    def eval1(self, node, st):
        r = self.eval(node, st)
        if len(r) != 1:
            raise Unsupported("forking expression in a single-path position")
        return r[0]

    def e_Constant(self, node, st):
        v = node.value
        if isinstance(v, (bool, int, str)) or v is None or v is Ellipsis:
            return [(st, v)]
        if isinstance(v, float):
            if v == int(v):
                return [(st, int(v))]
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, node, st):
        if node.id in st.env:
            v = st.env[node.id]
            if isinstance(v, Poison):
                raise PoisonRead(node.id)
            return [(st, v)]
        return [(st, self.global_name(node.id))]

    def global_name(self, name):
        mod = self.func_stack[-1].module
        if name in mod.funcs:
            return Func(mod.funcs[name], mod)
        if name in mod.imports:
            r = self.P.resolve_import(mod, name)
            if r is not None:
                m, orig = r
                if orig in m.funcs:
                    return Func(m.funcs[orig], m)
                return Builtin(f"{m.name}:{orig}")
            kind, m, orig = mod.imports[name]
            return Builtin(m if kind == "mod" else f"{m}.{orig}")
        if name in mod.classes:
            return Builtin(f"class:{name}")
        if name in mod.consts and isinstance(mod.consts[name], ast.Constant):
            return mod.consts[name].value
        if name in mod.consts:
            return Builtin(f"const:{name}")
        return Builtin(name)

    def e_Tuple(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            return self._starred(node.elts, st, tuple)
        return [(s, tuple(vs)) for s, vs in self.evals(node.elts, st)]

    def _starred(self, elts, st, kind):
        outs = [(st, [])]
        for n in elts:
            nxt = []
            for s, vs in outs:
                if isinstance(n, ast.Starred):
                    for s2, v in self.eval(n.value, s):
                        it = self.iterate(v, s2)
                        if it.concrete is None:
                            raise Unsupported("starred symbolic sequence")
                        nxt.append((s2, vs + list(it.concrete)))
                else:
                    for s2, v in self.eval(n, s):
                        nxt.append((s2, vs + [v]))
            outs = nxt
        return [(s, kind(v)) for s, v in outs]

    def e_List(self, node, st):
        out = []
        for s, vs in self._starred(node.elts, st, list):
            s = s.copy()
            out.append((s, s.alloc(ListObj(vs))))
        return out

    def prefer_invs(self, node):
        return False

    def e_Attribute(self, node, st):
        if node.attr in ("size", "shape"):
            out = []
            for s, v in self.eval(node.value, st):
                if isinstance(v, Filt):
                    s, n = self.np.meth_size_filt(self, s, v)
                    out.append((s, n if node.attr == "size" else (n,)))
                else:
                    out.append((s, self.attribute(s, v, node.attr)))
            return out
        return [(s, self.attribute(s, v, node.attr)) for s, v in self.eval(node.value, st)]

    def attribute(self, st, v, attr):
        if isinstance(v, Builtin):
            return Builtin(f"{v.name}.{attr}")
        if self.is_array(st, v):
            a = None
            if attr == "shape":
                return tuple(self.shape(st, v))
            if attr == "T":
                return self.np.transpose(self, st, v)
            if attr == "size":
                sh = self.shape(st, v)
                if len(sh) == 1:
                    return sh[0]
                r = 1
                for x in sh:
                    r = r * to_int(x)
                return r
            if attr == "ndim":
                return len(self.shape(st, v))
            if attr == "flat":
                if len(self.shape(st, v)) == 1:
                    return v
                raise Unsupported(".flat of a matrix")
            if attr == "dtype":
                return ("dtype", self.snap(st, v).dtype)
            return Bound(v, attr)
        if isinstance(v, Ref) and isinstance(st.heap[v.rid], ObjRec):
            o = st.heap[v.rid]
            if attr in o.attrs:
                return o.attrs[attr]
            m = self.find_method(o.cls, attr)
            if m is not None:
                return Func(m[1], m[0], self_val=v, name=f"{o.cls[1]}.{attr}")
            raise Unsupported(f"attribute {attr} of {o.cls}")
        if isinstance(v, (Ref, Filt, tuple, str, SeqObj)):
            return Bound(v, attr)
        if isinstance(v, (SI, z3.ExprRef, int)):
            return Bound(v, attr)
        raise Unsupported(f"attribute {attr} of {type(v).__name__}")

    def find_method(self, cls, name):
        if cls is None:
            return None
        rel, cname = cls
        mod = self.P.module(rel)
        if cname in mod.classes and name in mod.classes[cname]:
            return mod, mod.classes[cname][name]
        return None

    def e_UnaryOp(self, node, st):
        out = []
        for s, v in self.eval(node.operand, st):
            if isinstance(node.op, ast.Not):
                out.append((s, NOT(self.truth(s, v))))
            elif isinstance(node.op, ast.USub):
                if self.is_array(s, v):
                    a = self.snap(s, v)
                    out.append((s, s.alloc(A(a.shape, lambda *k: -V.to_int(a.get(*k))))))
                else:
                    out.append((s, -to_int(v)))
            elif isinstance(node.op, ast.Invert) and self.is_array(s, v):
                a = self.snap(s, v)
                if a.dtype != "b":
                    raise Unsupported("~ on integers")
                s = s.copy()
                out.append((s, s.alloc(A(a.shape, lambda *k: NOT(a.get(*k)), "b"))))
            else:
                raise Unsupported(f"unary {type(node.op).__name__}")
        return out

    def e_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)
        outs = [(st, None, False)]  # state, value, done
        for i, n in enumerate(node.values):
            nxt = []
            for s, v, done in outs:
                if done:
                    nxt.append((s, v, True))
                    continue
                if v is None:
                    for s2, v2 in self.eval(n, s):
                        nxt.append((s2, v2, False))
                    continue
                t = self.truth(s, v)
                if isinstance(t, bool):
                    if t == is_and:
                        for s2, v2 in self.eval(n, s):
                            nxt.append((s2, v2, False))
                    else:
                        nxt.append((s, v, True))
                    continue
                # symbolic: try to combine without forking
                guard = t if is_and else z3.Not(t)
                sg = s.assume(guard)
                if not self.feasible(sg):
                    nxt.append((s, v, True))
                    continue
                rs = self.eval(n, sg)
                if len(rs) == 1 and is_boolish(v) and is_boolish(rs[0][1]) \
                        and len(rs[0][0].pc) == len(sg.pc):
                    s2 = State(rs[0][0].env, rs[0][0].heap, s.pc)
                    w = rs[0][1]
                    nxt.append((s2, AND(v, w) if is_and else OR(v, w), False))
                else:
                    for s2, w in rs:
                        nxt.append((s2, w, False))
                    so = s.assume(z3.Not(guard))
                    if self.feasible(so):
                        nxt.append((so, v, True))
            outs = nxt
        return [(s, v) for s, v, _ in outs]

    def e_IfExp(self, node, st):
        out = []
        for s, c in self.eval(node.test, st):
            for s2, b in self.branch(s, self.truth(s, c)):
                out += self.eval(node.body if b else node.orelse, s2)
        return out

    def e_Compare(self, node, st):
        outs = []
        for s, vs in self.evals([node.left] + node.comparators, st):
            res = None
            for op, a, b in zip(node.ops, vs, vs[1:]):
                r = self.compare(s, op, a, b)
                res = r if res is None else AND(res, r)
            outs.append((s, res))
        return outs

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = (a is None and b is None)
                return r if isinstance(op, ast.Is) else not r
            raise Unsupported("is")
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, a, b)
            return NOT(r) if isinstance(op, ast.NotIn) else r
        aa, ab = self.is_array(st, a), self.is_array(st, b)
        if aa or ab or isinstance(a, Filt) or isinstance(b, Filt):
            return self.np.elementwise(self, st, type(op).__name__, a, b)
        a, b = ex(a), ex(b)
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str) and isinstance(op, (ast.Eq, ast.NotEq)):
                return (a == b) == isinstance(op, ast.Eq)
            if a is None or b is None:
                return isinstance(op, ast.NotEq)
            raise Unsupported("string comparison")
        if a is None or b is None:
            return (a is b) == isinstance(op, ast.Eq)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, (ast.Eq, ast.NotEq)):
            r = False if len(a) != len(b) else AND(*[self.compare(st, ast.Eq(), x, y) for x, y in zip(a, b)])
            return r if isinstance(op, ast.Eq) else NOT(r)
        sa, sb = self.seqview(st, a), self.seqview(st, b)
        if sa is not None and sb is not None and isinstance(op, (ast.Eq, ast.NotEq)):
            r = AND(EQ(sa.n, sb.n), FA(1, lambda k: IMP(inr(k, 0, sa.n), EQ(sa.get(k), sb.get(k)))))
            return r if isinstance(op, ast.Eq) else NOT(r)
        if isinstance(op, ast.Eq):
            return EQ(a, b)
        if isinstance(op, ast.NotEq):
            return NOT(EQ(a, b))
        a, b = to_int(a), to_int(b)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b,
                ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()

    def seqview(self, st, v):
        """sequence of scalars behind a value, or None"""
        if isinstance(v, SeqObj):
            return v
        if isinstance(v, Ref):
            o = st.heap[v.rid]
            if isinstance(o, SeqObj):
                return o
            if isinstance(o, ListObj):
                items = o.items
                return None if not items else SeqObj(len(items), self.pick(items))
        return None

    @staticmethod
    def pick(items):
        def get(i):
            i = to_int(i)
            if isinstance(i, int):
                return items[i]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = ITE(i == k, items[k], r)
            return r
        return get

    def contains(self, st, a, b):
        if isinstance(b, tuple):
            return OR(*[self.compare(st, ast.Eq(), a, x) for x in b])
        if isinstance(b, Ref):
            o = st.heap[b.rid]
            if isinstance(o, ListObj):
                return OR(*[self.compare(st, ast.Eq(), a, x) for x in o.items])
            if isinstance(o, DictObj):
                return o.dom(self.key(st, a))
            if isinstance(o, SeqObj):
                return EXI(1, lambda k: AND(inr(k, 0, o.n), EQ(o.get(k), a)))
        if self.is_array(st, b):
            arr = self.snap(st, b)
            if arr.ndim == 1:
                return EXI(1, lambda k: AND(inr(k, 0, arr.n), EQ(arr.get(k), a)))
        raise Unsupported("membership test")

    def key(self, st, k):
        k = ex(k)
        if isinstance(k, (int, z3.ExprRef)):
            return V.zi(k) if not isinstance(k, z3.ExprRef) else k
        raise Unsupported(f"dict key {type(k).__name__}")

    def e_BinOp(self, node, st):
        return [(s, self.binop(s, type(node.op).__name__, vs[0], vs[1]))
                for s, vs in self.evals([node.left, node.right], st)]

    def binop(self, st, op, a, b):
        if self.is_array(st, a) or self.is_array(st, b) or isinstance(a, Filt) or isinstance(b, Filt):
            return self.np.elementwise(self, st, op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, Ref) and isinstance(b, Ref) and op == "Add":
            la, lb = st.heap[a.rid], st.heap[b.rid]
            if isinstance(la, ListObj) and isinstance(lb, ListObj):
                return st.alloc(ListObj(la.items + lb.items))
        if isinstance(a, Ref) and isinstance(st.heap[a.rid], ListObj) and op == "Mult" and isinstance(ex(b), int):
            return st.alloc(ListObj(st.heap[a.rid].items * ex(b)))
        if op in ("BitAnd", "BitOr", "BitXor") and is_boolish(a) and is_boolish(b):
            return {"BitAnd": AND, "BitOr": OR,
                    "BitXor": lambda x, y: NOT(EQ(x, y))}[op](a, b)
        x, y = to_int(a), to_int(b)
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "FloorDiv":
            if isinstance(x, int) and isinstance(y, int):
                return x // y
            if isinstance(y, int) and y > 0:
                return x / y
            raise Unsupported("//")
        if op == "Mod":
            if isinstance(x, int) and isinstance(y, int):
                return x % y
            if isinstance(y, int) and y > 0:
                return x % y
            raise Unsupported("%")
        if op == "Div" and isinstance(x, int) and isinstance(y, int) and y and x % y == 0:
            return x // y
        raise Unsupported(f"operator {op}")

    def truth(self, st, v):
        if isinstance(v, Ref):
            o = st.heap[v.rid]
            if isinstance(o, ListObj):
                return len(o.items) > 0
            if isinstance(o, SeqObj):
                return to_int(o.n) > 0
            if isinstance(o, A):
                raise Unsupported("truth value of an array")
            raise Unsupported("truth value of an object")
        if isinstance(v, SeqObj):
            return to_int(v.n) > 0
        if isinstance(v, (tuple, str)):
            return len(v) > 0
        return to_bool(v)

    # ------------------------------------------------------------------ arrays
    def is_array(self, st, v):
        return isinstance(v, A) or (isinstance(v, Ref) and isinstance(st.heap.get(v.rid), A))

    def shape(self, st, v):
        if isinstance(v, A):
            return v.shape
        return v.lens.shape

    def snap(self, st, v):
        if isinstance(v, A):
            return v
        if isinstance(v, Ref):
            root = st.heap[v.rid]
            if not isinstance(root, A):
                raise Unsupported("array expected")
            lens = v.lens
            tag = None
            if root.tag is not None:
                tag = lambda *k: root.tag(*lens.to_base(*k))
            a = A(lens.shape, lambda *k: root.get(*lens.to_base(*k)), root.dtype, tag)
            return a
        raise Unsupported(f"array expected, got {type(v).__name__}")

    def new_arr(self, st, a):
        return st.alloc(a)

    def write(self, st, v, cond, val, dtype=None):
        """in-place: elements (of the view v) where cond(*k) become val(*k)"""
        if isinstance(v, A):
            raise Unsupported("write to a frozen array")
        st = st.copy()
        root = st.heap[v.rid]
        lens = v.lens

        def rc(*b):
            c, k = lens.from_base(*b)
            return AND(c, cond(*k)) if to_bool(c) is not False else False

        def rv(*b):
            c, k = lens.from_base(*b)
            w = val(*k)
            return V.zb(w) if root.dtype == "b" else V.zi(w)
        st.heap[v.rid] = Upd(root, rc, rv)
        return st

    def e_Subscript(self, node, st):
        out = []
        for s, base in self.eval(node.value, st):
            for s2, idx in self.eval_index(node.slice, s):
                out += self.subscript(s2, base, idx, node)
        return out

    def eval_index(self, node, st):
        if isinstance(node, ast.Tuple):
            outs = [(st, [])]
            for n in node.elts:
                outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.eval_index1(n, s)]
            return [(s, tuple(vs)) for s, vs in outs]
        return self.eval_index1(node, st)

    def eval_index1(self, node, st):
        if isinstance(node, ast.Slice):
            parts = [node.lower, node.upper, node.step]
            outs = [(st, [])]
            for p in parts:
                if p is None:
                    outs = [(s, vs + [None]) for s, vs in outs]
                else:
                    outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.eval(p, s)]
            return [(s, SliceV(*vs)) for s, vs in outs]
        return self.eval(node, st)

    def subscript(self, st, base, idx, node=None):
        if self.is_array(st, base):
            return self.np.getitem(self, st, base, idx)
        if isinstance(base, Filt):
            return self.np.filt_getitem(self, st, base, idx)
        if isinstance(base, str):
            raise Unsupported("string indexing")
        if isinstance(base, tuple):
            return [(st, self.seq_index(st, list(base), idx, tuple))]
        if isinstance(base, SeqObj):
            return [(st, self.symseq_index(st, base, idx))]
        if isinstance(base, Ref):
            o = st.heap[base.rid]
            if isinstance(o, ListObj):
                r = self.seq_index(st, o.items, idx, list)
                if isinstance(r, list):
                    r = st.alloc(ListObj(r))
                return [(st, r)]
            if isinstance(o, SeqObj):
                return [(st, self.symseq_index(st, o, idx))]
            if isinstance(o, DictObj):
                k = self.key(st, idx)
                out = []
                for s2, b in self.branch(st, o.dom(k)):
                    if b:
                        out.append((s2, o.val(k)))
                    else:
                        out.append((s2, RaiseV("KeyError")))
                return out
        raise Unsupported("subscript")

    def seq_index(self, st, items, idx, kind):
        if isinstance(idx, SliceV):
            f = lambda x: None if x is None else ex(x)
            lo, hi, step = f(idx.lo), f(idx.hi), f(idx.step)
            if all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                return kind(items[slice(lo, hi, step)])
            raise Unsupported("symbolic slice of a list")
        i = to_int(idx)
        if isinstance(i, int):
            if not -len(items) <= i < len(items):
                self.oblige(st, False, "list index in range", "bounds")
                raise Unsupported("list index out of range")
            return items[i]
        self.oblige(st, inr(i, 0, len(items)), "list index in range", "bounds")
        if all(is_sym(x) or isinstance(x, (int, bool)) for x in items):
            return self.pick(items)(i)
        raise Unsupported("symbolic index into a heterogeneous list")

    def symseq_index(self, st, o, idx):
        if isinstance(idx, SliceV):
            if idx.step is not None:
                raise Unsupported("step slice of a sequence")
            lo, hi = self.np.slice_bounds(idx, o.n, self, st)
            return SeqObj(sub(hi, lo), lambda k: o.get(add(lo, k)), o.kind)
        i = self.np.norm_index(self, st, to_int(idx), o.n)
        return o.get(i)

    # ---------------------------------------------------------------- iterate
    def iterate(self, v, st):
        if isinstance(v, IterV):
            return v
        if isinstance(v, tuple):
            return IterV(len(v), lambda s, i: self.pick(list(v))(i), concrete=list(v))
        if self.is_array(st, v):
            sh = self.shape(st, v)
            n = to_int(sh[0])
            if isinstance(v, A):
                a = v
                if a.ndim == 1:
                    el = lambda s, i: a.at(i)
                else:
                    el = lambda s, i: A(a.shape[1:], lambda *k: a.get(i, *k), a.dtype)
            else:
                el = lambda s, i: self.np.getitem(self, s, v, i, check=False)[0][1]
            conc = [el(st, k) for k in range(n)] if isinstance(n, int) and n <= 16 else None
            return IterV(n, el, concrete=conc)
        if isinstance(v, SeqObj):
            return IterV(v.n, lambda s, i: v.get(i))
        if isinstance(v, Ref):
            o = st.heap[v.rid]
            if isinstance(o, ListObj):
                return IterV(len(o.items), lambda s, i: self.pick(o.items)(i), concrete=list(o.items))
            if isinstance(o, SeqObj):
                return IterV(o.n, lambda s, i: o.get(i))
        if isinstance(v, Filt):
            s2, a = self.np.materialize(self, st, v)
            raise Unsupported("iteration over a filtered array")
        raise Unsupported(f"iteration over {type(v).__name__}")

    # --------------------------------------------------------- comprehensions
    def e_ListComp(self, node, st):
        return self.comp(node, st, "list")

    def e_GeneratorExp(self, node, st):
        return self.comp(node, st, "gen")

    def comp(self, node, st, kind):
        if len(node.generators) != 1 or node.generators[0].is_async:
            raise Unsupported("nested comprehension")
        g = node.generators[0]
        out = []
        for s, itv in self.eval(g.iter, st):
            it = self.iterate(itv, s)
            if it.concrete is not None and not g.ifs:
                outs = [(s, [])]
                for item in it.concrete:
                    nxt = []
                    for s2, vs in outs:
                        saved = dict(s2.env)
                        s3 = s2.copy()
                        self.bind(s3, g.target, item)
                        for s4, v in self.eval(node.elt, s3):
                            s4 = s4.copy()
                            s4.env = dict(saved)
                            nxt.append((s4, vs + [v]))
                    outs = nxt
                for s2, vs in outs:
                    s2 = s2.copy()
                    out.append((s2, s2.alloc(ListObj(vs))))
                continue
            if g.ifs:
                raise Unsupported("filtered comprehension over a symbolic sequence")
            i = self.fresh_int("ci")
            sg = s.copy()
            sg.pc.append(z3.And(i >= 0, i < V.zi(it.n)))
            self.ctx.append(i)
            try:
                self.bind(sg, g.target, it.elem(sg, i))
                base = len(sg.pc)
                rs = self.eval(node.elt, sg)
            finally:
                self.ctx.pop()
            for s4, v in rs:
                if isinstance(v, RaiseV):
                    raise Unsupported("exception inside a comprehension")
            val = self.merge_values([(z3.And(*s4.pc[base:]) if s4.pc[base:] else z3.BoolVal(True), v) for s4, v in rs])
            facts = OR(*[AND(*s4.pc[base:]) for s4, v in rs])
            s5 = s.copy()
            if facts is not True:
                s5 = s5.assume(self.forall_idx(i, it.n, facts))
            heap = rs[0][0].heap
            if len(rs) == 1:
                s5.heap = dict(heap)

            def get(k, val=val, i=i):
                return self.subst(val, [(i, V.zi(k))])
            seq = SeqObj(it.n, get, kind)
            if kind == "gen":
                out.append((s5, seq))
            else:
                out.append((s5, s5.alloc(seq)))
        return out

    def merge_values(self, gv):
        if len(gv) == 1:
            return gv[0][1]
        if not all(is_sym(v) or isinstance(v, (int, bool)) for _, v in gv):
            if all(isinstance(v, A) for _, v in gv):
                raise Unsupported("merge of arrays")
            raise Unsupported("merge of structured values")
        r = gv[-1][1]
        for c, v in reversed(gv[:-1]):
            r = ITE(c, v, r)
        return r

    def forall_idx(self, i, n, body):
        j = z3.Int(f"j!{next(self._fresh)}")
        b = z3.substitute(V.zb(body), (i, j))
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < V.zi(n)), b))

    # ------------------------------------------------------------ substitution
    def subst(self, v, pairs):
        if isinstance(v, SI):
            return SI(self.subst(v.e, pairs), None if v.tag is None else self.subst(v.tag, pairs))
        if isinstance(v, z3.ExprRef):
            return z3.substitute(v, *pairs)
        if isinstance(v, tuple):
            return tuple(self.subst(x, pairs) for x in v)
        if isinstance(v, A):
            tag = (lambda *k: self.subst(V.zi(v.tag(*k)), pairs)) if v.tag is not None else None
            return A([self.subst(x, pairs) for x in v.shape],
                     lambda *k: self.subst_g(v.get, pairs, k), v.dtype, tag)
        if isinstance(v, SeqObj):
            return SeqObj(self.subst(v.n, pairs), lambda k: self.subst(v.get(k), pairs), v.kind)
        if isinstance(v, (int, bool, str, Func, Builtin)) or v is None:
            return v
        if isinstance(v, Ref):
            return v
        raise Unsupported(f"substitution into {type(v).__name__}")

    def subst_g(self, get, pairs, k):
        # the index terms must not be captured by the substitution
        tmp = [z3.Int(f"s!{next(self._fresh)}") for _ in k]
        t = get(*tmp)
        if isinstance(t, (int, bool)):
            return t
        t = z3.substitute(t, *pairs)
        return z3.substitute(t, *[(a, V.zi(b)) for a, b in zip(tmp, k)])

    # ---------------------------------------------------------------- calls
    def e_Call(self, node, st):
        out = []
        for s, f in self.eval(node.func, st):
            if any(isinstance(a, ast.Starred) for a in node.args):
                argsets = self._starred(node.args, s, list)
            else:
                argsets = self.evals(node.args, s)
            for s2, args in argsets:
                kws = [(s2, {})]
                for kw in node.keywords:
                    if kw.arg is None:
                        raise Unsupported("**kwargs")
                    kws = [(s4, {**d, kw.arg: v}) for s3, d in kws for s4, v in self.eval(kw.value, s3)]
                for s5, kwargs in kws:
                    bad = [a for a in list(args) + list(kwargs.values()) if isinstance(a, RaiseV)]
                    if bad:
                        out.append((s5, bad[0]))
                        continue
                    out += self.call(s5, f, args, kwargs, node)
        return out

    def e_Lambda(self, node, st):
        return [(st, Func(node, self.func_stack[-1].module, env=dict(st.env)))]

    def e_JoinedStr(self, node, st):
        return [(st, "<fstring>")]

    def e_Dict(self, node, st):
        if node.keys:
            raise Unsupported("dict literal")
        s = st.copy()
        return [(s, s.alloc(DictObj(lambda k: False, lambda k: None)))]

    def call(self, st, f, args, kwargs, node=None):
        if isinstance(f, Func):
            return self.call_func(st, f, args, kwargs)
        if isinstance(f, Builtin):
            m = self.np.LIB.get(f.name)
            if m is None:
                if f.name in self.contracts:
                    return self.apply_contract(st, self.contracts[f.name], args, kwargs)
                raise Unsupported(f"call to {f.name}")
            self.used_lib.add(f.name)
            return m(self, st, args, kwargs)
        if isinstance(f, Bound):
            m = self.np.METHODS.get(f.name)
            if m is None:
                raise Unsupported(f"method .{f.name}")
            self.used_lib.add("." + f.name)
            return m(self, st, f.val, args, kwargs)
        raise Unsupported(f"call of {type(f).__name__}")

    def bind_params(self, node, args, kwargs, self_val=None, module=None):
        a = node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if self_val is not None:
            args = [self_val] + args
        if len(args) > len(names):
            raise Unsupported("too many positional arguments")
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kwargs.items():
            env[k] = v
        defaults = a.defaults
        for n, d in zip(names[len(names) - len(defaults):], defaults):
            if n not in env:
                env[n] = self.const_default(d)
        for n, d in zip([p.arg for p in a.kwonlyargs], a.kw_defaults):
            if n not in env and d is not None:
                env[n] = self.const_default(d)
        missing = [n for n in names if n not in env]
        if missing:
            raise Unsupported(f"missing arguments {missing}")
        return env

    def const_default(self, d):
        if isinstance(d, ast.Constant):
            return d.value
        if isinstance(d, ast.UnaryOp) and isinstance(d.op, ast.USub) and isinstance(d.operand, ast.Constant):
            return -d.operand.value
        return Poison("default")

    def call_func(self, st, f, args, kwargs):
        c = self.contracts.get(f.name)
        if c is not None and c.get("modular", True) and f.name != self.top_name:
            return self.apply_contract(st, c, args, kwargs, f)
        if c is not None and f.name == self.top_name and len(self.func_stack) > 0:
            return self.apply_contract(st, c, args, kwargs, f)   # recursion
        return self.inline(st, f, args, kwargs)

    def inline(self, st, f, args, kwargs):
        if len(self.func_stack) > 12:
            raise Unsupported("inlining depth")
        if isinstance(f.node, ast.Lambda):
            env = dict(f.env or {})
            env.update(self.bind_params(f.node, args, kwargs))
            s = State(env, st.heap, st.pc)
            self.func_stack.append(f)
            try:
                rs = self.eval(f.node.body, s)
            finally:
                self.func_stack.pop()
            return [(State(st.env, r.heap, r.pc), v) for r, v in rs]
        self.inlined.add(f.name)
        env = dict(f.env or {})
        env.update(self.bind_params(f.node, args, kwargs, f.self_val))
        s = State(env, dict(st.heap), list(st.pc))
        self.func_stack.append(f)
        try:
            outs = self.block(f.node.body, s)
        finally:
            self.func_stack.pop()
        res = []
        for s2, o in outs:
            s3 = State(st.env, s2.heap, s2.pc)
            if o[0] == "next":
                res.append((s3, None))
            elif o[0] == "ret":
                res.append((s3, o[1]))
            elif o[0] == "exc":
                res.append((s3, RaiseV(o[1])))
            else:
                raise Unsupported("break outside loop")
        return res

    def apply_contract(self, st, c, args, kwargs, f=None):
        """assume-guarantee use of a callee's contract"""
        if f is not None:
            env = self.bind_params(f.node, args, kwargs, f.self_val)
        else:
            env = dict(zip(c["params"], args))
            env.update(kwargs)
        st = st.copy()
        if "apply" in c:
            return c["apply"](self, st, env)
        view = {k: (self.snap(st, v) if self.is_array(st, v) else v) for k, v in env.items()}
        for nm, g in c["requires"](self, view):
            self.oblige(st, g, f"precondition of {c['name']}: {nm}", "pre")
        res = c["result"](self, view)
        post = c["ensures"](self, view, res)
        for nm, g in post:
            g = to_bool(g)
            if g is not True:
                st.pc.append(V.zb(g))
        if isinstance(res, A):
            res = st.alloc(res)
        return [(st, res)]

    # ------------------------------------------------------------- statements
    def block(self, stmts, st):
        outs = [(st, ("next",))]
        for s_ in stmts:
            nxt = []
            for s, o in outs:
                if o[0] != "next":
                    nxt.append((s, o))
                else:
                    nxt += self.stmt(s_, s)
            outs = nxt
            if len(outs) > 400:
                raise Unsupported("too many paths")
        return outs

    def stmt(self, node, st):
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(node).__name__} at line {node.lineno}")
        return m(node, st)

    def s_Pass(self, node, st):
        return [(st, ("next",))]

    def s_Expr(self, node, st):
        if isinstance(node.value, ast.Constant):
            return [(st, ("next",))]
        return [(s, ("exc", v.name) if isinstance(v, RaiseV) else ("next",)) for s, v in self.eval(node.value, st)]

    def s_Return(self, node, st):
        if node.value is None:
            return [(st, ("ret", None))]
        return [(s, ("exc", v.name) if isinstance(v, RaiseV) else ("ret", v)) for s, v in self.eval(node.value, st)]

    def s_Break(self, node, st):
        return [(st, ("brk",))]

    def s_Continue(self, node, st):
        return [(st, ("cont",))]

    def s_Delete(self, node, st):
        s = st.copy()
        for t in node.targets:
            if isinstance(t, ast.Name):
                s.env.pop(t.id, None)
            else:
                raise Unsupported("del of an element")
        return [(s, ("next",))]

    def s_Assert(self, node, st):
        out = []
        for s, v in self.eval(node.test, st):
            c = self.truth(s, v)
            for s2, b in self.branch(s, c):
                out.append((s2, ("next",) if b else ("exc", "AssertionError")))
        return out

    def s_Raise(self, node, st):
        name = "Exception"
        if isinstance(node.exc, ast.Call) and isinstance(node.exc.func, ast.Name):
            name = node.exc.func.id
        elif isinstance(node.exc, ast.Name):
            name = node.exc.id
        return [(st, ("exc", name))]

    def s_If(self, node, st):
        out = []
        for s, v in self.eval(node.test, st):
            if isinstance(v, RaiseV):
                out.append((s, ("exc", v.name)))
                continue
            for s2, b in self.branch(s, self.truth(s, v)):
                out += self.block(node.body if b else node.orelse, s2)
        return out

    def s_Try(self, node, st):
        out = []
        for s, o in self.block(node.body, st):
            if o[0] == "exc":
                for h in node.handlers:
                    hn = [h.type.id] if isinstance(h.type, ast.Name) else \
                        ([e.id for e in h.type.elts] if isinstance(h.type, ast.Tuple) else ["*"])
                    if "*" in hn or o[1] in hn or "Exception" in hn:
                        out += self.block(h.body, s)
                        break
                else:
                    out.append((s, o))
            elif o[0] == "next":
                out += self.block(node.orelse, s)
            else:
                out.append((s, o))
        if node.finalbody:
            raise Unsupported("finally")
        return out

    def s_FunctionDef(self, node, st):
        s = st.copy()
        s.env[node.name] = Func(node, self.func_stack[-1].module, env=dict(st.env))
        return [(s, ("next",))]

    def s_Import(self, node, st):
        return [(st, ("next",))]

    s_ImportFrom = s_Import

    def s_Assign(self, node, st):
        out = []
        for s, v in self.eval(node.value, st):
            if isinstance(v, RaiseV):
                out.append((s, ("exc", v.name)))
                continue
            ss = [s.copy()]
            for t in node.targets:
                ss = [s3 for s2 in ss for s3 in self.assign(s2, t, v)]
            out += [(s2, ("next",)) for s2 in ss]
        return out

    def s_AnnAssign(self, node, st):
        if node.value is None:
            return [(st, ("next",))]
        return [(s3, ("next",)) for s, v in self.eval(node.value, st)
                for s3 in self.assign(s.copy(), node.target, v)]

    def s_AugAssign(self, node, st):
        out = []
        load = ast.copy_location(ast.fix_missing_locations(_as_load(node.target)), node)
        for s, (cur, inc) in [(s, vs) for s, vs in self.evals([load, node.value], st)]:
            if isinstance(cur, Ref) and isinstance(s.heap[cur.rid], A):
                r = self.snap(s, self.binop(s, type(node.op).__name__, cur, inc))
                s = self.write(s, cur, lambda *k: True, r.get)
                out.append((s, ("next",)))
                continue
            v = self.binop(s, type(node.op).__name__, cur, inc)
            out += [(s3, ("next",)) for s3 in self.assign(s.copy(), node.target, v)]
        return out

    def assign(self, st, target, v):
        """assign in place on st (already private); returns states"""
        if isinstance(target, (ast.Name,)):
            st.env[target.id] = v
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            self.bind(st, target, v)
            return [st]
        if isinstance(target, ast.Subscript):
            out = []
            for s, base in self.eval(target.value, st):
                for s2, idx in self.eval_index(target.slice, s):
                    out += self.store(s2.copy(), base, idx, v)
            return out
        if isinstance(target, ast.Attribute):
            out = []
            for s, base in self.eval(target.value, st):
                if isinstance(base, Ref) and isinstance(s.heap[base.rid], ObjRec):
                    s = s.copy()
                    o = s.heap[base.rid]
                    n = ObjRec(o.cls, o.attrs)
                    n.attrs[target.attr] = v
                    s.heap[base.rid] = n
                    out.append(s)
                else:
                    raise Unsupported("attribute store")
            return out
        raise Unsupported(f"assignment target {type(target).__name__}")

    def bind(self, st, target, v):
        """destructuring bind in place"""
        if isinstance(target, ast.Name):
            st.env[target.id] = v
            return
        if isinstance(target, (ast.Tuple, ast.List)):
            if isinstance(v, tuple):
                items = v
            elif isinstance(v, Ref) and isinstance(st.heap[v.rid], ListObj):
                items = st.heap[v.rid].items
            elif self.is_array(st, v) and isinstance(to_int(self.shape(st, v)[0]), int):
                items = self.iterate(v, st).concrete
            elif self.is_array(st, v) and len(self.shape(st, v)) == 1:
                k = len(target.elts)
                self.oblige(st, EQ(self.shape(st, v)[0], k), "unpacking length", "bounds")
                items = [self.snap(st, v).at(i) for i in range(k)]
            else:
                raise Unsupported("destructuring")
            if len(items) != len(target.elts):
                raise Unsupported("destructuring length")
            for t, x in zip(target.elts, items):
                self.bind(st, t, x)
            return
        raise Unsupported("bind target")

    def store(self, st, base, idx, v):
        if self.is_array(st, base):
            return self.np.setitem(self, st, base, idx, v)
        if isinstance(base, Ref):
            o = st.heap[base.rid]
            if isinstance(o, ListObj):
                i = to_int(idx)
                if isinstance(i, int):
                    items = list(o.items)
                    items[i] = v
                    st.heap[base.rid] = ListObj(items)
                    return [st]
            if isinstance(o, DictObj):
                k = self.key(st, idx)
                if isinstance(v, (Ref, tuple, str)) or v is None:
                    raise Unsupported("structured dict value")
                old = o
                st.heap[base.rid] = DictObj(lambda q: OR(EQ(q, k), old.dom(q)),
                                            lambda q: ITE(EQ(q, k), ex(v), old.val(q)) if old.val(q) is not None else ex(v),
                                            o.ksort)
                return [st]
        raise Unsupported("item store")

    # ------------------------------------------------------------------ loops
    def s_For(self, node, st):
        from . import loops
        out = []
        for s, itv in self.eval(node.iter, st):
            it = self.iterate(itv, s)
            n = to_int(it.n)
            if it.concrete is not None or (isinstance(n, int) and n <= 16):
                items = it.concrete if it.concrete is not None else [it.elem(s, k) for k in range(n)]
                out += loops.unroll(self, node, s, items)
            else:
                out += loops.for_loop(self, node, s, it)
        return out

    def s_While(self, node, st):
        from . import loops
        return loops.while_loop(self, node, st)

    # -------------------------------------------------------------- top level
    top_name = None


class RaiseV:
    """pseudo value: evaluating the expression raised this exception"""

    def __init__(self, name):
        self.name = name


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t
