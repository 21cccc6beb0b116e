"""Loop rules.

Every rule is an instance of induction over the iteration count whose side
conditions are either syntactic facts about the symbolic execution of one
*generic* iteration (which state it reads and writes) or are proved by z3:

 search      the body changes nothing on the paths that go on to the next
             iteration: after j iterations, no earlier iteration met an exit
             condition.
 pointwise   each iteration writes array elements, with values that do not read
             the elements written by the loop: the array after m iterations is
             given in closed form and the closed form is proved inductive.
 accumulate  scalars updated as s |= c(i), s &= c(i), s += c(i), or last-write.
 append      exactly one element is appended to a list per iteration.
 invariant   a sidecar invariant: initialisation, preservation and use are
             separate obligations.
"""
import ast
import itertools
import z3

from .values import *
from . import values as V


def unroll(eng, node, st, items):
    outs, done = [(st, ("next",))], []
    for item in items:
        nxt = []
        for s, o in outs:
            s = s.copy()
            eng.bind(s, node.target, item)
            for s2, o2 in eng.block(node.body, s):
                if o2[0] in ("next", "cont"):
                    nxt.append((s2, ("next",)))
                elif o2[0] == "brk":
                    done.append((s2, ("next",)))
                else:
                    done.append((s2, o2))
        outs = nxt
        if len(outs) + len(done) > 300:
            raise Unsupported("too many paths in an unrolled loop")
    if node.orelse:
        outs = [r for s, o in outs for r in eng.block(node.orelse, s)]
    return outs + done


def assigned_names(nodes):
    out = []
    for n in nodes:
        for m in ast.walk(n):
            if isinstance(m, ast.Name) and isinstance(m.ctx, (ast.Store, ast.Del)) and m.id not in out:
                out.append(m.id)
    return out


def kind_of(eng, st, v):
    """type descriptor used to havoc a value"""
    if isinstance(v, Ref):
        o = st.heap[v.rid]
        if isinstance(o, A):
            return ("ref", o.ndim, o.dtype)
        if isinstance(o, (ListObj, SeqObj)):
            return ("list",)
        return ("obj",)
    if isinstance(v, A):
        return ("arr", v.ndim, v.dtype)
    if isinstance(v, (bool,)) or (is_sym(v) and is_boolish(v)):
        return ("bool",)
    if isinstance(v, int) or is_sym(v):
        return ("int",)
    if isinstance(v, Filt):
        return ("filt",)
    return ("other",)


def havoc_value(eng, st, name, v):
    """an arbitrary value of the same type (arrays: arbitrary shape) "pre" an
    iteration; may allocate in st"""
    if isinstance(v, Poison):
        raise Unsupported(f"variable {name} read before assignment")
    if isinstance(v, bool) or (is_sym(v) and is_boolish(v)):
        return eng.fresh_bool(name)
    if isinstance(v, SI):
        return SI(eng.fresh_int(name), eng.fresh_int(name + "_tag") if v.tag is not None else None)
    if isinstance(v, int) or is_sym(v):
        return eng.fresh_int(name)
    if eng.is_array(st, v):
        a = eng.snap(st, v)
        shape = [eng.fresh_int(f"{name}_n{d}") for d in range(a.ndim)]
        st.pc += [x >= 0 for x in shape]
        return st.alloc(eng.fresh_arr(name, shape, a.dtype, tag=a.tag is not None))
    raise Unsupported(f"loop-carried variable {name} of type {type(v).__name__}")


class Generic:
    """result of executing one generic iteration"""
    pass


def run_generic(eng, node, st, i, it, carried, mutroots, is_while=False):
    """execute the body once from a state in which temporaries are poisoned,
    carried variables and mutated heap roots are arbitrary."""
    names = assigned_names(node.body + ([node.target] if not is_while else []))
    sg = st.copy()
    pre = {}
    for n in names:
        if n in carried:
            if n not in st.env:
                raise Unsupported(f"variable {n} possibly unbound")
            sg.env[n] = havoc_value(eng, sg, n, st.env[n])
            pre[n] = sg.env[n]
        else:
            sg.env[n] = Poison(n)
    roots = {}
    for rid in mutroots:
        o = st.heap[rid]
        if isinstance(o, A):
            roots[rid] = eng.fresh_arr("H", o.shape, o.dtype)
            sg.heap[rid] = roots[rid]
        elif isinstance(o, (ListObj, SeqObj)):
            items = o.items if isinstance(o, ListObj) else None
            L = eng.fresh_int("Llen")
            sg.pc.append(L >= 0)
            G = eng.fresh("Lget", z3.IntSort(), dom=(z3.IntSort(),))
            roots[rid] = SeqObj(L, lambda k: G(k))
            sg.heap[rid] = roots[rid]
        elif isinstance(o, DictObj):
            raise Unsupported("dict mutated in a loop")
        else:
            raise Unsupported("object mutated in a loop")
    if it is not None:
        sg.pc.append(z3.And(i >= 0, i < V.zi(it.n)))
    base = len(sg.pc)
    return names, sg, pre, roots, base


def for_loop(eng, node, st, it):
    res = try_invariants(eng, node, st, it) if eng.prefer_invs(node) else None
    if res is not None:
        return res
    nobl = len(eng.obls)
    try:
        return rule_for(eng, node, st, it)
    except Unsupported as e:
        del eng.obls[nobl:]
        res = try_invariants(eng, node, st, it)
        if res is not None:
            return res
        raise Unsupported(f"loop at line {node.lineno}: {e}")


def rule_for(eng, node, st, it):
    i = eng.fresh_int("i")
    # with an empty iteration nothing happens; n may be negative for range()
    carried, mutroots = [], []
    while True:
        mark = len(eng.obls)
        names, sg, pre, roots, base = run_generic(eng, node, st, i, it, carried, mutroots)
        eng.ctx.append(i)
        try:
            try:
                eng.bind(sg, node.target, it.elem(sg, i))
                outs = eng.block(node.body, sg)
            except PoisonRead as e:
                if e.name in carried or e.name not in st.env or isinstance(st.env.get(e.name), Poison):
                    raise
                carried.append(e.name)
                del eng.obls[mark:]
                continue
        finally:
            eng.ctx.pop()
        changed = set()
        for s2, o in outs:
            if o[0] in ("next", "cont"):
                for rid, obj in st.heap.items():
                    cur = s2.heap.get(rid)
                    ref = roots.get(rid, obj)
                    if cur is not ref and rid not in mutroots:
                        changed.add(rid)
        if changed:
            mutroots += sorted(changed)
            del eng.obls[mark:]
            continue
        break
    normal = [(s, o) for s, o in outs if o[0] in ("next", "cont")]
    exits = [(s, o) for s, o in outs if o[0] not in ("next", "cont")]
    n = V.zi(it.n)

    def delta(s):
        return AND(*s.pc[base:])
    # carried scalars that do not change on continuing paths
    really = [c for c in carried if any(s.env.get(c) is not pre[c] for s, o in normal)]
    const = [c for c in carried if c not in really]
    rules = []
    sub0 = []          # substitutions valid at iteration i: pre constant -> closed form at i
    closed = {}
    for c in const:
        if not is_sym(pre[c]):
            raise Unsupported(f"structured loop-carried value {c}")
        sub0.append((ex(pre[c]), coerce(st.env[c], ex(pre[c]))))
    # scalars
    pend = list(really)
    progress = True
    while pend and progress:
        progress = False
        for c in list(pend):
            cf = scalar_closed(eng, c, st, pre, normal, base, i, n, sub0, [pre[x] for x in pend if x != c], roots)
            if cf is not None:
                closed[c] = cf
                sub0.append((ex(pre[c]), cf(i)))
                pend.remove(c)
                rules.append("accumulate")
                progress = True
    if pend:
        raise Unsupported(f"loop-carried variable {pend[0]} has no closed form")
    # arrays and lists
    arrs = {}
    for rid in mutroots:
        root = st.heap[rid]
        if isinstance(root, A):
            arrs[rid] = array_closed(eng, rid, st, roots, normal, base, i, n, sub0)
            rules.append("pointwise")
        else:
            arrs[rid] = list_closed(eng, rid, st, roots, normal, base, i, n, sub0)
            rules.append("append")
    fsubs = [(roots[rid].meta, arrs[rid]) for rid in mutroots if isinstance(st.heap[rid], A)]

    def instantiate(t, m):
        """term of the generic iteration -> the same at iteration m (closed forms
        replacing the havocked state)"""
        return replace_state(eng, t, sub0, fsubs, i, m)
    if not rules:
        rules.append("search")
    eng.rules.append((eng.cur, node.lineno, "+".join(sorted(set(rules)))))
    ncond = OR(*[delta(s) for s, o in normal]) if normal else False
    results = []

    def all_before(m):
        if ncond is True:
            return True
        j = z3.Int(f"j!{next(eng._fresh)}")
        b = instantiate(V.zb(ncond), j)
        return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), V.zb(b)))
    # obligations raised inside the body mention the havocked state: restate
    for ob in eng.obls[mark:]:
        if sub0 or fsubs:
            ob.pc = [V.zb(instantiate(p, i)) for p in ob.pc]
            ob.goal = V.zb(instantiate(ob.goal, i))
        a = all_before(i)
        if a is not True:
            ob.pc.append(V.zb(a))
    facts, eng.pending = eng.pending, []
    # exit paths
    for s, o in exits:
        s = s.copy()
        untouched = [rid for rid in mutroots if s.heap.get(rid) is roots[rid]]
        if any(rid not in untouched and not isinstance(st.heap[rid], A) for rid in mutroots):
            raise Unsupported("list changed on an exit path")
        if sub0 or fsubs:
            s = subst_state(eng, s, base, st, lambda t: instantiate(t, i))
            o = (o[0],) + tuple(subst_val(eng, x, lambda t: instantiate(t, i)) for x in o[1:])
        # arrays mutated by earlier iterations: their value at exit
        for rid in untouched:
            s.heap[rid] = final_obj(eng, st.heap[rid], arrs[rid], i)
        s.pc += facts
        for nme in names:
            if nme in st.env and isinstance(s.env.get(nme), Poison) and nme in carried:
                s.env[nme] = st.env[nme]
        a = all_before(i)
        s.pc.append(V.zb(z3.And(i >= 0, i < n)))
        if a is not True:
            s.pc.append(V.zb(a))
        results.append((s, ("next",) if o[0] == "brk" else o))
    # completion
    s = st.copy()
    s.pc += facts
    N = z3.If(n > 0, n, z3.IntVal(0)) if maybe_negative(it) else n
    a = all_before(n)
    if a is not True:
        s.pc.append(V.zb(a))
    for nme in names:
        if nme in closed:
            s.env[nme] = closed[nme](N)
        elif nme not in const:
            s.env[nme] = Poison(nme)
    for rid in mutroots:
        s.heap[rid] = final_obj(eng, st.heap[rid], arrs[rid], N)
    if not eng.feasible(s):
        return results
    if node.orelse:
        results += eng.block(node.orelse, s)
    else:
        results.append((s, ("next",)))
    return results


def maybe_negative(it):
    n = it.n
    return isinstance(n, z3.ExprRef) and not (z3.is_const(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED)


def coerce(v, like):
    return V.zb(v) if z3.is_bool(like) else V.zi(v)


def final_obj(eng, root, cf, m):
    if isinstance(cf, tuple) and cf[0] == "list":
        return cf[1](m)
    if hasattr(cf, "upd"):
        c, v = cf.upd
        return Upd(root, lambda *k: c(m, *k), lambda *k: v(m, *k))
    return root


def replace_state(eng, t, sub0, fsubs, i, m):
    """t[pre := closed form at i][i := m]"""
    t = V.zb(t) if is_boolish(t) else V.zi(t)
    for a, b in sub0:
        t = z3.substitute(t, (a, b))
    for decl, w in fsubs:
        t = subst_fun(eng, t, decl, lambda *k: w(i, *k))
    return z3.substitute(t, (i, V.zi(m)))


def subst_fun(eng, t, decl, f):
    """replace every application decl(outer ctx..., k...) by f(k...)"""
    if decl is None:
        return t
    nidx = eng.idx_arity[decl.name()]
    rng_b = decl.range() == z3.BoolSort()
    cache = {}

    def go(x):
        key = x.get_id()
        if key in cache:
            return cache[key][1]
        if z3.is_quantifier(x):
            vs = [z3.FreshConst(x.var_sort(q), "sf") for q in range(x.num_vars())]
            body = z3.substitute_vars(x.body(), *reversed(vs))
            nb = go(body)
            r = x if nb.eq(body) else (z3.ForAll(vs, nb) if x.is_forall() else z3.Exists(vs, nb))
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if x.decl().eq(decl):
                w = f(*ch[len(ch) - nidx:])
                r = V.zb(w) if rng_b else V.zi(w)
            elif all(a.eq(b) for a, b in zip(ch, x.children())):
                r = x
            else:
                r = rebuild(x, ch)
        else:
            r = x
        cache[key] = (x, r)
        return r
    return go(t)


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    return x.decl()(*ch)


def subst_val(eng, v, f):
    if isinstance(v, SI):
        return SI(f(v.e), None if v.tag is None else f(v.tag))
    if isinstance(v, z3.ExprRef):
        return f(v)
    if isinstance(v, tuple):
        return tuple(subst_val(eng, x, f) for x in v)
    if isinstance(v, A):
        return A([subst_val(eng, x, f) for x in v.shape], lambda *k: f_g(v.get, f, k), v.dtype,
                 (lambda *k: f_g(v.tag, f, k)) if v.tag is not None else None)
    if isinstance(v, SeqObj):
        return SeqObj(subst_val(eng, v.n, f), lambda k: subst_val(eng, v.get(k), f), v.kind)
    if isinstance(v, Filt):
        return Filt(lambda k: subst_val(eng, v.src(k), f), lambda k: f_g(v.mask, f, (k,)), subst_val(eng, v.n, f))
    return v


def f_g(get, f, k):
    t = get(*k)
    if isinstance(t, (int, bool)):
        return t
    return f(t)


def subst_state(eng, s, base, st, f):
    n = s.copy()
    n.pc = s.pc[:base] + [V.zb(f(p)) for p in s.pc[base:]]
    for k, v in s.env.items():
        if v is not st.env.get(k):
            n.env[k] = subst_val(eng, v, f)
    for rid, o in s.heap.items():
        if o is not st.heap.get(rid):
            if isinstance(o, (A, SeqObj)):
                n.heap[rid] = subst_val(eng, o, f)
            elif isinstance(o, ListObj):
                n.heap[rid] = ListObj([subst_val(eng, x, f) for x in o.items])
            else:
                raise Unsupported("object changed on an exit path")
    return n


def occurs(t, consts, decls=()):
    if isinstance(t, (int, bool)):
        return False
    seen = set()
    todo = [t]
    names = set(d.name() for d in decls if d is not None)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        for c in consts:
            if x.eq(c):
                return True
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().name() in names:
                return True
            todo += x.children()
    return False


def scalar_closed(eng, c, st, pre, normal, base, i, n, sub0, others, roots):
    """closed form m -> value of c after m iterations, or None"""
    h = ex(pre[c])
    others = [ex(o) for o in others if is_sym(o)]
    decls = [r.meta for r in roots.values() if isinstance(r, A)]
    if not isinstance(h, z3.ExprRef):
        return None
    posts = []
    for s, o in normal:
        v = s.env.get(c)
        if isinstance(v, Poison) or not (is_sym(v) or isinstance(v, (int, bool))):
            return None
        d = AND(*s.pc[base:])
        v = coerce(v, h) if z3.is_bool(h) == is_boolish(v) else None
        if v is None:
            return None
        posts.append((V.zb(d), v))
    sub = lambda t: z3.substitute(t, *sub0) if sub0 else t
    posts = [(sub(d), sub(v)) for d, v in posts]
    for d, v in posts:
        if occurs(d, others, decls) or occurs(v, others, decls):
            return None
    init = coerce(st.env[c], h)
    step = posts[-1][1]
    for d, v in reversed(posts[:-1]):
        step = z3.If(d, v, step)
    # a guard reading h itself (e.g. running minimum) is not summarised here
    if z3.is_bool(h):
        cF = z3.simplify(z3.substitute(step, (h, z3.BoolVal(False))))
        cT = z3.simplify(z3.substitute(step, (h, z3.BoolVal(True))))
        pcs = st.pc
        if eng.proves([], step == z3.Or(h, cF), 2000):
            return lambda m: z3.Or(init, _ex(eng, i, m, cF))
        if eng.proves([], step == z3.And(h, cT), 2000):
            return lambda m: z3.And(init, _fa(eng, i, m, cT))
        return None
    # h + c(i)
    dlt = z3.simplify(step - h)
    if not occurs(dlt, [h]):
        if not occurs(dlt, [i]):
            return lambda m: init + dlt * V.zi(m)
        S = eng.fresh("acc", z3.IntSort(), dom=(z3.IntSort(),))
        eng.pending.append(z3.And(S(0) == 0, FA(1, lambda m: IMP(inr(m, 0, n), S(m + 1) == S(m) + z3.substitute(dlt, (i, m))))))
        return lambda m: init + S(m)
    return None


def _ex(eng, i, m, body):
    j = z3.Int(f"j!{next(eng._fresh)}")
    return z3.Exists([j], z3.And(j >= 0, j < V.zi(m), z3.substitute(body, (i, j))))


def _fa(eng, i, m, body):
    j = z3.Int(f"j!{next(eng._fresh)}")
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < V.zi(m)), z3.substitute(body, (i, j))))


def chain(a, root):
    """updates from a down to root: [(cond, val)] latest first"""
    out = []
    while a is not root:
        if not isinstance(a, Upd):
            raise Unsupported("array replaced in a loop")
        out.append((a.cond, a.val))
        a = a.base
    return out


def conjuncts(t):
    if isinstance(t, bool):
        return []
    if z3.is_and(t):
        return [c for x in t.children() for c in conjuncts(x)]
    return [t]


def solve_index(t, i, ks):
    """find i = k + c from an equality conjunct"""
    for c in conjuncts(t):
        if z3.is_eq(c):
            a, b = c.children()
            for x, y in ((a, b), (b, a)):
                # x is one of ks (no i), y = i + const
                if any(x.eq(k) for k in ks) and not occurs(x, [i]) and z3.is_int(y):
                    off = z3.simplify(y - i)
                    if not occurs(off, [i]) and not any(occurs(off, [k]) for k in ks):
                        return z3.simplify(x - off)
    return None


def array_closed(eng, rid, st, roots, normal, base, i, n, sub0):
    """closed form (m, *k) -> element k of the array after m iterations"""
    root = st.heap[rid]
    H = roots[rid]
    ks = [z3.Int(f"k{d}!{next(eng._fresh)}") for d in range(root.ndim)]
    hk = H.get(*ks)
    alld = [r.meta for r in roots.values() if isinstance(r, A)]
    sub = lambda t: z3.substitute(t, *sub0) if sub0 else t
    W = []   # (condition, value) per path and update
    for s, o in normal:
        d = sub(V.zb(AND(*s.pc[base:])))
        prev = z3.BoolVal(False)
        for cond, val in chain(s.heap[rid], H):
            c = sub(V.zb(cond(*ks)))
            v = sub(V.zb(val(*ks)) if root.dtype == "b" else V.zi(val(*ks)))
            W.append((z3.And(c, d, z3.Not(prev)) if not z3.is_false(prev) else z3.And(c, d), v, c))
            prev = z3.Or(prev, c)
    if not W:
        return lambda m, *k: root.get(*k)
    # element-wise read-modify-write: values may read the element itself
    vreads = [occurs(v, [], alld) for w, v, c in W]
    wreads = any(occurs(w, [], alld) for w, v, c in W)
    if wreads:
        raise Unsupported("guard of an array write reads the array")
    wr = z3.simplify(z3.Or(*[w for w, v, c in W]))
    val = W[-1][1]
    for w, v, c in reversed(W[:-1]):
        val = z3.If(w, v, val)
    sols = [solve_index(c, i, ks) for w, v, c in W]
    rng = root.dtype
    rootget = lambda k: V.zb(root.get(*k)) if rng == "b" else V.zi(root.get(*k))

    def at(t, m, k):
        return z3.substitute(t, (i, V.zi(m)), *[(a, V.zi(b)) for a, b in zip(ks, k)])
    if all(x is not None for x in sols) and (not any(vreads) or all(x.eq(sols[0]) for x in sols)):
        if any(vreads):
            # reads of its own element, each element written by one iteration only
            if not all(occurs_only_at(v, H.meta, hk) for w, v, c in W):
                raise Unsupported("array write reads other elements of the array")
        groups = []      # (iteration solving the write location, condition, value), latest write first
        for (w, v, c), js in zip(W, sols):
            v = z3.substitute(v, (hk, rootget(ks))) if any(vreads) else v
            for g in groups:
                if g[0].eq(js):
                    g[2] = z3.If(g[1], g[2], v)
                    g[1] = z3.Or(g[1], w)
                    break
            else:
                groups.append([js, w, v])

        def hits(m, k):
            out = []
            for js, w, v in groups:
                jk = z3.substitute(js, *[(a, V.zi(b)) for a, b in zip(ks, k)])
                out.append((jk, z3.And(jk >= 0, jk < V.zi(m), at(w, jk, k)), at(v, jk, k)))
            return out

        def ucond(m, *k):
            return z3.Or(*[h for _, h, _ in hits(m, k)]) if len(groups) > 1 else hits(m, k)[0][1]

        def uval(m, *k):
            hs = hits(m, k)
            r = hs[-1][2]
            for q in range(len(hs) - 2, -1, -1):
                jk, h, v = hs[q]
                last = z3.And(h, *[z3.Or(z3.Not(h2), jk >= j2) for j2, h2, _ in hs[q + 1:]])
                r = z3.If(last, v, r)
            return r
    elif not any(vreads) and not occurs(val, [i]):
        def ucond(m, *k):
            j = z3.Int(f"j!{next(eng._fresh)}")
            return z3.Exists([j], z3.And(j >= 0, j < V.zi(m), at(wr, j, k)))

        def uval(m, *k):
            return at(val, 0, k)
    elif not any(vreads):
        raise Unsupported("array write location depends on the iteration in an unsupported way")
    else:
        raise Unsupported("array write reads the array")

    def cf(m, *k):
        return z3.If(ucond(m, *k), uval(m, *k), rootget(k))
    cf.upd = (ucond, uval)
    # prove the closed form inductive:  step(cf(i)) == cf(i+1)
    v_i = cf(i, *ks)
    stepv = v_i
    for w, v, c in reversed(W):
        stepv = z3.If(w, z3.substitute(v, (hk, v_i)), stepv)
    guard = [z3.And(i >= 0, i < n)] + list(st.pc)
    if not eng.proves([z3.And(i >= 0, i < n)], stepv == cf(i + 1, *ks), 3000) and \
            not eng.proves(guard, stepv == cf(i + 1, *ks), 6000):
        raise Unsupported("closed form of an array loop not proved inductive")
    eng.side_proofs += 1
    return cf


def occurs_only_at(t, decl, app):
    """every application of decl in t is exactly `app`"""
    r = z3.substitute(t, (app, z3.FreshConst(app.sort())))
    return not occurs(r, [], [decl])


def list_closed(eng, rid, st, roots, normal, base, i, n, sub0):
    root = st.heap[rid]
    pre = roots[rid]
    if isinstance(root, ListObj):
        n0 = len(root.items)
        items = root.items
        oldget = (lambda k: eng.pick(items)(k)) if items else (lambda k: 0)
    else:
        n0, oldget = root.n, root.get
    if len(normal) != 1:
        raise Unsupported("conditional append in a loop")
    s, o = normal[0]
    new = s.heap[rid]
    if not isinstance(new, SeqObj):
        raise Unsupported("list replaced in a loop")
    sub = lambda t: z3.substitute(t, *sub0) if sub0 else t
    grow = z3.simplify(V.zi(new.n) - V.zi(pre.n))
    if not (z3.is_int_value(grow) and grow.as_long() == 1):
        raise Unsupported("list does not grow by one per iteration")
    e = new.get(pre.n)
    e = z3.simplify(sub(V.zi(e))) if not isinstance(e, int) else z3.IntVal(e)
    if occurs(e, [V.zi(pre.n)]):
        raise Unsupported("appended value reads the list")

    def at(m):
        L0 = V.zi(n0)
        return SeqObj(L0 + V.zi(m), lambda k: ITE(lt(k, L0), ex(oldget(k)) if not isinstance(root, ListObj) or root.items else 0,
                                                 z3.substitute(e, (i, V.zi(k) - L0))))
    return ("list", at)


# ------------------------------------------------------------ sidecar invariants
def try_invariants(eng, node, st, it=None):
    """try every applicable sidecar invariant; None if none applies"""
    kind = "for" if isinstance(node, ast.For) else "while"
    for inv in eng.invs:
        if inv["kind"] != kind:
            continue
        if inv.get("func") and eng.cur not in inv["func"]:
            continue
        names = assigned_names(node.body)
        cand = [nm for nm in names if nm in st.env and not isinstance(st.env[nm], Poison)]
        roles = inv["roles"]           # role -> type descriptor
        opts = []
        for r, ty in roles.items():
            o = [nm for nm in cand if kind_of(eng, st, st.env[nm])[:len(ty)] == tuple(ty)]
            o.sort(key=lambda nm: nm != r)
            opts.append(o)
        rnames = []
        for r, ty in inv.get("reads", {}).items():
            pref = inv.get("read_names", {}).get(r, r)
            o = [nm for nm, x in st.env.items() if nm not in names and not isinstance(x, Poison)
                 and kind_of(eng, st, x)[:len(ty)] == tuple(ty)]
            o.sort(key=lambda nm: nm != pref)
            opts.append(o[:4])
            rnames.append(r)
        roles = list(roles) + rnames
        for combo in itertools.islice(itertools.product(*opts), 24):
            if len(set(combo)) != len(combo):
                continue
            mark = len(eng.obls)
            try:
                mm = dict(zip(roles, combo))
                pref = inv.get("read_names", {})
                exact = all(pref.get(a, a) == b for a, b in mm.items())
                r = apply_invariant(eng, node, st, it, inv, mm, exact)
            except (Unsupported, PoisonRead, z3.Z3Exception) as e:
                eng.notes.append(f"{eng.cur}: invariant {inv['name']} with {dict(zip(roles, combo))}: {e}")
                del eng.obls[mark:]
                continue
            if r is not None:
                return r
            del eng.obls[mark:]
    return None


def apply_invariant(eng, node, st, it, inv, m, defer=False):
    """m: role -> variable name.  Returns outcomes or None if the invariant is
    not established / preserved for this assignment of roles."""
    is_while = it is None
    names = assigned_names(node.body)
    carried = [nm for nm in names if nm in st.env and not isinstance(st.env[nm], Poison)]
    # variables which are assigned before use in every iteration need no havoc value,
    # but giving them an arbitrary one is sound
    sg = st.copy()
    rolev = set(m.values())
    for nm in names:
        if nm in rolev or (nm in carried):
            try:
                sg.env[nm] = havoc_value(eng, sg, nm, st.env[nm])
            except Unsupported:
                if nm in rolev:
                    raise
                sg.env[nm] = Poison(nm)
        else:
            sg.env[nm] = Poison(nm)
    if not is_while:
        for nm in assigned_names([node.target]):
            sg.env[nm] = Poison(nm)
    # heap objects mutated in the body are havocked if they belong to a role
    mutated = {}
    probe_roots = set()
    env0 = {r: st.env[v] for r, v in m.items()}
    for r, v in m.items():
        val = st.env[v]
        if isinstance(val, Ref) and val.rid in sg.heap and isinstance(sg.env[v], Ref):
            pass
    G = inv.get("ghost", lambda eng, view: {})(eng, None)

    def view(s, i=None, extra=None):
        d = {}
        for r, v in m.items():
            x = s.env[v]
            if isinstance(x, Poison):
                raise Unsupported("role variable unset")
            d[r] = eng.snap(s, x) if eng.is_array(s, x) else x
        d["_i"] = i
        d["_params"] = eng.param_view
        d["_locals"] = {k: (eng.snap(s, x) if eng.is_array(s, x) else x) for k, x in s.env.items() if not isinstance(x, Poison)}
        return d
    n = None if is_while else V.zi(it.n)
    i = None
    # 1. initialisation
    zero = None if is_while else z3.IntVal(0)
    for nm_, g in inv["inv"](eng, view(st, zero)):
        eng.oblige(st, g, f"loop invariant holds on entry: {inv['name']}/{nm_}", "inv-init")
        if not defer and not eng.proves(st.pc, g, inv.get("ms", 8000)):
            return None
    # 2. preservation, from an arbitrary state satisfying the invariant
    if not is_while:
        i = eng.fresh_int("i")
        sg.pc += [i >= 0, i < n]
    for nm_, g in inv["inv"](eng, view(sg, i)):
        sg.pc.append(V.zb(g))
    results = []
    starts = [(sg, None)]
    if is_while:
        starts = []
        for s, v in eng.eval(node.test, sg):
            for s2, b in eng.branch(s, eng.truth(s, v)):
                starts.append((s2, b))
    else:
        eng.bind(sg, node.target, it.elem(sg, i))
        starts = [(sg, True)]
    if not is_while or True:
        if i is not None:
            eng.ctx.append(i)
        try:
            for s, b in starts:
                if b is False:
                    continue
                heap0 = dict(s.heap)
                for s2, o in eng.block(node.body, s):
                    for rid, obj in heap0.items():
                        if s2.heap.get(rid) is not obj and rid in st.heap:
                            raise Unsupported("loop mutates the heap")
                    if o[0] in ("next", "cont"):
                        nxt = view(s2, None if is_while else i + 1)
                        hints = inv.get("hints")
                        for nm_, g in inv["inv"](eng, nxt):
                            eng.oblige(s2, g, f"loop invariant preserved: {inv['name']}/{nm_}", "inv-step")
                            if not defer and not eng.proves(s2.pc, g, inv.get("ms", 8000)):
                                eng.notes.append(f"{eng.cur}: {inv['name']}/{nm_} not preserved")
                                return None
                        if inv.get("variant") is not None:
                            v0, v1 = inv["variant"](view(s, i)), inv["variant"](nxt)
                            eng.oblige(s2, AND(V.zi(v0) >= 0, V.zi(v1) < V.zi(v0)), f"termination measure decreases: {inv['name']}", "variant")
                            if not defer and not eng.proves(s2.pc, AND(V.zi(v0) >= 0, V.zi(v1) < V.zi(v0)), 4000):
                                return None
                    elif o[0] == "brk":
                        results.append((s2, ("next",)))
                    else:
                        results.append((s2, o))
        finally:
            if i is not None:
                eng.ctx.pop()
    # 3. after the loop
    if is_while:
        for s, b in starts:
            if b is False:
                results.append((s, ("next",)))
    else:
        se = st.copy()
        for nm in names:
            if nm in carried:
                try:
                    se.env[nm] = havoc_value(eng, se, nm, st.env[nm])
                except Unsupported:
                    se.env[nm] = Poison(nm)
            else:
                se.env[nm] = Poison(nm)
        N = z3.If(n > 0, n, z3.IntVal(0))
        for nm_, g in inv["inv"](eng, view(se, N)):
            se.pc.append(V.zb(g))
        results.append((se, ("next",)))
    eng.rules.append((eng.cur, node.lineno, f"invariant:{inv['name']}"))
    return results


def while_loop(eng, node, st):
    if node.orelse:
        raise Unsupported("while/else")
    r = try_invariants(eng, node, st, None)
    if r is None:
        raise Unsupported(f"while loop at line {node.lineno} without an applicable invariant")
    return r
