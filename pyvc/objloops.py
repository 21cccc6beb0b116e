"""Loops over dictionaries, sets and comprehensions.

Keyed-loop rule.  For `for t in S: body`, the body is executed once, for an
arbitrary element k of S, from an arbitrary earlier iteration: every object the
body may change is replaced by an abstract one H.  Let t_1(k)..t_n(k) be the keys
the body writes.  The rule needs (and proves): different write terms never meet
(t_i(k) != t_j(k') for all k, k' in S), and a term through which the body reads
what it wrote is injective (then H agrees there with the state before the loop)
or is used as an accumulator (H[t] + something independent of H).  The state
after the loop is then, key by key: the body's effect at the one k with t(k) = q
(injective), the effect of some k with t(k) = q (overwriting), the initial value
plus the sum over all k with t(k) = q (accumulating), and the initial value
everywhere else.  If a side condition cannot be proved the function is unsupported.
"""
import ast
import z3

from .values import Unsupported
from .objvc import *
from . import objvc as O


class HPart:
    """what a list held before this iteration"""


def template(v):
    if isinstance(v, tuple):
        return tuple(template(x) for x in v)
    if z3.is_expr(v):
        return v.sort()
    if isinstance(v, bool):
        return B
    if isinstance(v, (int, float)):
        return R
    if v is None:
        return None
    raise Unsupported(f"abstracting a container of {type(v).__name__}")


def fresh_val(eng, nm, tpl, *dom):
    if isinstance(tpl, tuple):
        fs = [fresh_val(eng, nm, t, *dom) for t in tpl]
        return lambda *q: tuple(f(*q) for f in fs)
    if tpl is None:
        return lambda *q: None
    return eng.fresh(nm, tpl, *dom)


def probe(o):
    """the value template of a dictionary, None if it holds nothing"""
    v = o.val(var(o.ksort))
    return None if isinstance(v, Undef) else template(v)


def abstract(eng, o, like, names):
    """an arbitrary object of the same type; its symbols are recorded in names"""
    before = next(eng.n)
    if isinstance(like, DictO):
        if like.ksort is None:
            return o
        tpl = probe(like)
        if tpl is None and isinstance(o, DictO) and o.ksort is not None:
            tpl = probe(o)
        dom = eng.fresh("Hdom", B, like.ksort)
        val = fresh_val(eng, "Hval", tpl, like.ksort) if tpl is not None else (lambda q: UNDEF)
        E = eng.fresh("HE", R) if like.E is not None and o.E is not None else None
        r = DictO(like.ksort, dom, val, like.default, E)
    elif isinstance(like, SetO):
        r = SetO(like.ksort, eng.fresh("Hmem", B, like.ksort))
    elif isinstance(like, LstO):
        return LstO((HPart(),))
    elif isinstance(like, ArrO):
        g = like.get(*[var(I) for _ in like.shape])
        r = ArrO(like.shape, eng.fresh("Hget", template(g), *[I for _ in like.shape]))
    elif isinstance(like, O.LazySet):
        return o
    else:
        raise Unsupported(f"loop changes a {type(like).__name__}")
    for i in range(before, next(eng.n)):
        names.add(i)
    return r


def has_h(t, names):
    for s in syms(t):
        if s.startswith("H") and "!" in s:
            return True
    return False


def changed(o0, o1):
    return o0 is not o1


def run_body(eng, node, s, e):
    outs = []
    for s2, ex_ in eng.bind(s, node.target, e):
        if ex_:
            outs.append((s2, ("exc", ex_.name)))
        else:
            outs += eng.block(node.body, s2)
    return outs


def env_same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.a == b.a
    if isinstance(a, (int, float, str, bool)) and isinstance(b, (int, float, str, bool)):
        return type(a) is type(b) and a == b
    return False


def target_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*[target_names(x) for x in t.elts])
    return set()


def discover(eng, node, st, s0, e):
    """addresses and locals the body may change, and example objects"""
    M, L = {}, set()
    for _ in range(6):
        s = s0.copy()
        names = set()
        for a, like in M.items():
            s.heap[a] = abstract(eng, st.heap[a], like, names)
        for v in L:
            if v in s.env:
                s.env[v] = abstract_local(eng, s.env[v])
        outs = run_body(eng, node, s, e)
        new = False
        for s2, o in outs:
            for a in st.heap:
                if changed(s.heap[a], s2.heap[a]):
                    if isinstance(st.heap[a], RecO):
                        raise Unsupported("attribute rebound in a loop")
                    o2 = s2.heap[a]
                    if a not in M or (type(M[a]) is not type(o2)) or (isinstance(o2, DictO) and (M[a].ksort is None or probe(M[a]) is None and probe(o2) is not None)):
                        M[a] = o2
                        new = True
            for v in set(s2.env) | set(s.env):
                if v in target_names(node.target):
                    continue
                if v not in s.env or v not in s2.env or not env_same(s.env[v], s2.env[v]):
                    if v not in L and v != "__exc__":
                        L.add(v)
                        new = True
        if not new:
            return M, L
    raise Unsupported("loop effect does not stabilise")


def abstract_local(eng, v):
    if z3.is_expr(v) and z3.is_arith(v):
        return eng.fresh("Hloc", v.sort())
    if isinstance(v, bool):
        return eng.fresh("Hloc", B)
    if isinstance(v, int):
        return eng.fresh("Hloc", I)
    if isinstance(v, float):
        return eng.fresh("Hloc", R)
    if z3.is_expr(v):
        return eng.fresh("Hloc", v.sort())
    return ABSENT


def written(o):
    """key terms (tuples) written since the abstract state"""
    if o.keys is None:
        raise Unsupported("bulk update inside a loop")
    return [k if isinstance(k, tuple) else (k,) for k in o.keys]


def keyed_loop(eng, node, st, it):
    spec = eng.loops.get(loop_key(eng))
    if spec is not None:
        return invariant_loop(eng, node, st, it, spec)
    n0 = len(eng.obls)
    ks = [var(v.sort(), "k") for v in it.vars]
    c, e = it.at(ks)
    eng.ctx += ks
    try:
        if any(isinstance(n, ast.Return) for n in ast.walk(node)):
            return search_loop(eng, node, st, ks, zb(c), e)
        return _keyed(eng, node, st, it, ks, zb(c), e)
    finally:
        del eng.ctx[len(eng.ctx) - len(ks):]


def search_loop(eng, node, st, ks, c, e, commit=None):
    """Search rule: the body changes nothing that is still seen after it (except
    through `commit`: its own element) and goes on or leaves the function.  It leaves
    if it does so for some element, and goes on only if it does for every one."""
    names = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    s0 = st.copy()
    s0.pc.append((zb(c), True))
    for v in names:
        s0.env.pop(v, None)     # nothing is carried from one iteration to the next
    base = len(s0.pc)
    cells = set(s0.heap)
    if commit is not None:
        e = commit.start(eng, s0)
    outs = run_body(eng, node, s0, e)
    left, stay = [], []
    for s2, o in outs:
        for a in cells:
            if changed(s0.heap[a], s2.heap[a]):
                raise Unsupported("a search that changes something")
        for v in set(s2.env) - names:
            if v not in st.env or not env_same(st.env[v], s2.env[v]):
                raise Unsupported("a search that changes something")
        if o[0] in ("next", "continue"):
            stay.append((s2,) + split_pc(s2, base))
        elif o[0] == "exc" or o[0] == "ret" and (o[1] is None or isinstance(o[1], (bool, int, str))):
            left.append((s2, o))
        else:
            raise Unsupported("a search that ends otherwise")
    eng.rules.append((eng.cur, node.lineno, "search loop"))
    res = [(s2, o) for s2, o in left if eng.feasible(s2)]
    s1 = st.copy()
    for v in names:
        s1.env.pop(v, None)
    if left:
        s1.pc.append((z3.ForAll(ks, z3.Implies(zb(c), zb(OR(*[b for _, b, _ in stay])))), True))
    for s2, b, facts in stay:
        for pre, f in facts:
            s1.pc.append((z3.ForAll(ks, z3.Implies(z3.And([zb(c)] + [zb(p) for p in pre]), f)), False))
    if commit is not None:
        s1 = commit.end(eng, s1, [(s2, b) for s2, b, _ in stay])
    return res + [(s1, ("next",))]


def loop_key(eng):
    return eng.stack[-1].name


def split_pc(s, base):
    br = [p for p, b in s.pc[base:] if b]
    facts, pre = [], []
    for p, b in s.pc[base:]:
        if b:
            pre.append(p)
        else:
            facts.append((list(pre), p))
    return AND(*br), facts


def _keyed(eng, node, st, it, ks, c, e):
    s0 = st.copy()
    s0.pc.append((c, True))
    if not eng.feasible(s0):
        eng.rules.append((eng.cur, node.lineno, "keyed: empty"))
        return [(st, ("next",))]
    M, L = discover(eng, node, st, s0, e)
    if isinstance(it.seq, tuple) and it.seq[0] == "dict" and it.seq[1] in M:
        raise Unsupported("collection changed while it is iterated")
    if M and all(isinstance(o, SetO) for o in M.values()):
        r = growing(eng, node, st, s0, ks, c, e, M, L)
        if r is not None:
            return r
    # first abstract run: find the write terms
    names = set()
    s = s0.copy()
    H = {}
    for a, like in M.items():
        H[a] = s.heap[a] = abstract(eng, st.heap[a], like, names)
    hl = {}
    for v in L:
        if v in s.env:
            hl[v] = s.env[v] = abstract_local(eng, s.env[v])
    outs = run_body(eng, node, s, e)
    terms = {}
    for a in M:
        ts = []
        for s2, o in outs:
            o2 = s2.heap[a]
            if isinstance(o2, (LstO, O.LazySet)) or o2 is H[a]:
                continue
            for t in written(o2):
                if not any(all(x.eq(y) for x, y in zip(t, u)) for u in ts):
                    if has_h(t, names):
                        raise Unsupported("loop writes at a key read from changed state")
                    ts.append(t)
        terms[a] = ts
    pc0 = st.pcs()
    inj, const = {}, {}
    for a, ts in terms.items():
        for t in ts:
            key = (a, id(t))
            used = set().union(*[syms(x) for x in t])
            const[key] = not any(k.decl().name() in used for k in ks)
            if len(ks) == 1 and len(t) == 1 and t[0].eq(ks[0]):
                inj[key] = "own"
            elif const[key]:
                inj[key] = False
            else:
                ks2 = [var(k.sort()) for k in ks]
                ps = list(zip(ks, ks2))
                same = z3.And([x == z3.substitute(x, *ps) for x in t])
                inj[key] = eng.proves(pc0 + [c, z3.substitute(c, *ps), same], z3.And([k == k2 for k, k2 in ps]), 1500)
        for i, t in enumerate(ts):
            for u in ts[i + 1:]:
                ks2 = [var(k.sort()) for k in ks]
                ps = list(zip(ks, ks2))
                meet = z3.And([x == z3.substitute(y, *ps) for x, y in zip(t, u)])
                if not eng.proves(pc0 + [c, z3.substitute(c, *ps)], z3.Not(meet), 2500):
                    raise Unsupported(f"loop at line {node.lineno}: two write terms may meet")
    # second abstract run, knowing what H agrees with
    s = s0.copy()
    H2 = {}
    for a in M:
        h, o = H[a], st.heap[a]
        own = [t for t in terms[a] if inj[(a, id(t))]]
        if isinstance(h, DictO) and h.ksort is not None:
            init_dom, init_val = o.dom, o.val
            blank = isinstance(o.val(var(h.ksort)), Undef)

            def hdom(q, h=h, own=own, f=init_dom):
                return f(q) if any(q.eq(t[0]) for t in own) else h.dom(q)

            def hval(q, h=h, own=own, f=init_val, blank=blank):
                return f(q) if not blank and any(q.eq(t[0]) for t in own) else h.val(q)
            H2[a] = DictO(h.ksort, hdom, hval, h.default, h.E)
            q = var(h.ksort)
            untouched = AND(*[away(ks, c, t, (q,)) for t in terms[a]])
            agree = [IFF(h.dom(q), init_dom(q))]
            if not blank and not isinstance(h.val(q), Undef):
                agree.append(eng.same_val(h.val(q), init_val(q)))
            s.pc.append((z3.ForAll([q], z3.Implies(zb(untouched), zb(AND(*agree)))), False))
            dels = [t for t in terms[a] if not only_sets(eng, outs, a, t)]
            if len(dels) < len(terms[a]):
                safe = AND(*[away(ks, c, t, (q,)) for t in dels])
                s.pc.append((z3.ForAll([q], z3.Implies(zb(AND(init_dom(q), safe)), h.dom(q))), False))
        elif isinstance(h, SetO):
            H2[a] = SetO(h.ksort, lambda q, h=h, own=own, f=o.mem: f(q) if any(q.eq(t[0]) for t in own) else h.mem(q))
            q = var(h.ksort)
            untouched = AND(*[away(ks, c, t, (q,)) for t in terms[a]])
            s.pc.append((z3.ForAll([q], z3.Implies(zb(untouched), zb(IFF(h.mem(q), o.mem(q))))), False))
        elif isinstance(h, ArrO):
            H2[a] = ArrO(h.shape, lambda *q, h=h, own=own, f=o.get: f(*q) if any(all(x.eq(y) for x, y in zip(q, t)) for t in own) else h.get(*q))
        else:
            H2[a] = h
        s.heap[a] = H2[a]
    for v in hl:
        s.env[v] = hl[v]
    base = len(s.pc)
    outs = run_body(eng, node, s, e)
    for s2, o in outs:
        if o[0] in ("break", "ret"):
            raise Unsupported(f"loop at line {node.lineno}: leaves the loop early")
        for a in st.heap:
            if a not in M and changed(st.heap[a], s2.heap[a]):
                raise Unsupported("loop effect does not stabilise")
        for a in M:
            o2 = s2.heap[a]
            if isinstance(o2, (DictO, SetO, ArrO)) and o2 is not H2[a]:
                for t in written(o2):
                    if not any(all(x.eq(y) for x, y in zip(t, u)) for u in terms[a]):
                        raise Unsupported("loop write terms do not stabilise")
    norm = [(s2,) + split_pc(s2, base) for s2, o in outs if o[0] in ("next", "continue")]
    excs = [(s2, o) + split_pc(s2, base) for s2, o in outs if o[0] == "exc"]
    eng.rules.append((eng.cur, node.lineno, "keyed loop"))
    # facts about fresh symbols hold for every element
    st1 = st.copy()
    for tup in norm + [(x[0], x[2], x[3]) for x in excs]:
        for pre, f in tup[2]:
            g = z3.Implies(z3.And([c] + [zb(p) for p in pre]), f)
            st1.pc.append((z3.ForAll(ks, g), False))
    for a in M:
        pass
    results = []
    # ------------------------------------------------------- exceptional exits
    for s2, o, pcx, facts in excs:
        sx = st1.copy()
        sx.pc += [(c, True)] + [(zb(p), b) for p, b in s2.pc[base:]]
        for a, like in M.items():
            sx.heap[a] = abstract(eng, st.heap[a], like, set())
        for v in L | target_names(node.target):
            sx.env[v] = ABSENT
        sx.env["__exc__"] = o[1]
        if eng.feasible(sx):
            results.append((sx, o))
        if not has_h(zb(pcx), names) and all(eng.proves([c, zb(pcx), zb(pcn)], False, 1500) for _, pcn, _ in norm):
            st1.pc.append((z3.ForAll(ks, z3.Implies(c, zb(NOT(pcx)))), False))
    if not norm:
        st1.pc.append((z3.ForAll(ks, z3.Not(c)), True))
        return results + ([(st1, ("next",))] if eng.feasible(st1) else [])
    # ------------------------------------------------------------ final objects
    fin = st1
    nexc = len(results)
    eng.hfacts = []
    saved = list(eng.ctx)
    del eng.ctx[len(eng.ctx) - len(ks):]
    try:
        for a in M:
            o, h = st.heap[a], H2[a]
            if isinstance(h, LstO) or isinstance(M[a], LstO):
                fin.heap[a] = final_list(eng, o, ks, c, norm, a)
            elif isinstance(h, DictO) and h.ksort is not None:
                fin, fin.heap[a] = final_dict(eng, fin, o, h, H[a], ks, c, norm, a, terms[a], inj, names, s0)
            elif isinstance(h, SetO):
                fin, fin.heap[a] = final_set(eng, fin, o, h, ks, c, norm, a, terms[a], inj, names)
            elif isinstance(h, ArrO):
                fin, fin.heap[a] = final_arr(eng, fin, o, h, ks, c, norm, a, terms[a], inj, names)
            else:
                raise Unsupported("loop object")
        for v in target_names(node.target):
            fin.env[v] = ABSENT
        for v in L:
            fin.env[v] = final_local(eng, st.env.get(v, ABSENT), hl.get(v), v, ks, c, norm, names)
    finally:
        eng.ctx[:] = saved
    for sx, o in results[:nexc]:
        sx.pc += [(f, False) for f in eng.hfacts]
    results.append((fin, ("next",)))
    return results


def growing(eng, node, st, s0, ks, c, e, M, L):
    """Growing rule: each iteration only adds to a set, and what it adds does not
    depend on what is in it: in the end it has what it had and what any of them adds."""
    runs = []
    for empty_ in (False, True):
        s = s0.copy()
        h = {}
        for a, like in M.items():
            h[a] = (lambda q: False) if empty_ else eng.fresh("Hgrow", B, like.ksort)
            s.heap[a] = SetO(like.ksort, h[a])
        for v in L:
            s.env.pop(v, None)
        base = len(s.pc)
        runs.append((h, base, run_body(eng, node, s, e)))
    (h, base, full), (_, _, bare) = runs
    if len(full) != len(bare) or any(o[0] not in ("next", "continue") for _, o in full + bare):
        return None
    adds = {a: [] for a in M}
    facts = []
    for (s2, _), (s3, _) in zip(full, bare):
        b2, f2 = split_pc(s2, base)
        b3, f3 = split_pc(s3, base)
        if not eng.proves(st.pcs() + [c], zb(IFF(b2, b3)), 1500):
            return None
        facts += f3
        for a, like in M.items():
            o2, o3 = s2.heap[a], s3.heap[a]
            if not isinstance(o2, (SetO, O.LazySet)) or not isinstance(o3, (SetO, O.LazySet)) or isinstance(o2, SetO) and o2.ksort != like.ksort:
                return None
            q = var(like.ksort)
            if not eng.proves(st.pcs() + [c, zb(b3)], z3.ForAll([q], zb(IFF(o2.mem(q), OR(h[a](q), o3.mem(q))))), 2500):
                return None
            adds[a].append((b3, o3))
    st1 = st.copy()
    for pre, f in facts:
        st1.pc.append((z3.ForAll(ks, z3.Implies(z3.And([c] + [zb(p) for p in pre]), f)), False))
    for a, like in M.items():
        old = st.heap[a].mem

        def mem(q, a=a, old=old):
            t = z3.Exists(ks, zb(AND(c, OR(*[AND(b, o.mem(q)) for b, o in adds[a]]))))
            return OR(old(q), t)
        st1.heap[a] = SetO(like.ksort, mem, None)
    for v in L | target_names(node.target):
        st1.env.pop(v, None)
    eng.rules.append((eng.cur, node.lineno, "growing set loop"))
    return [(st1, ("next",))]


def away(ks, c, t, q):
    """no element of the loop writes at q through t"""
    ks2 = [var(k.sort()) for k in ks]
    ps = list(zip(ks, ks2))
    if len(ks) == 1 and len(t) == 1 and t[0].eq(ks[0]):
        return NOT(z3.substitute(c, (ks[0], q[0])))
    return z3.ForAll(ks2, z3.Implies(z3.substitute(c, *ps), z3.Not(z3.And([z3.substitute(x, *ps) == y for x, y in zip(t, q)]))))


def only_sets(eng, outs, a, t):
    for s2, o in outs:
        d = s2.heap[a]
        if d.keys and any(all(x.eq(y) for x, y in zip(t, u)) for u in written(d)):
            r = d.dom(t[0])
            if z3.is_expr(r) and z3.is_false(z3.simplify(r)):
                return False
            if not (r is True or z3.is_expr(r) and z3.is_true(z3.simplify(r)) or eng.proves(s2.pcs(), r, 1500)):
                return False
    return True


def writes(o2, t):
    return bool(o2.keys) and any(all(x.eq(y) for x, y in zip(t, u)) for u in written(o2))


def nest(parts):
    """ITE over path conditions"""
    v = parts[-1][1]
    for c, x in reversed(parts[:-1]):
        v = IT(c, x, v)
    return v


def locate(eng, st, ks, cond, t, kind):
    """(state, in(q), ks(q)): membership of q in {t(k): cond} and a witness"""
    if kind == "own":
        return st, (lambda q: sub(cond, [(ks[0], q[0])])), (lambda q: [q[0]])
    ws = [eng.fresh("wit", k.sort(), *[x.sort() for x in t]) for k in ks]

    def wit(q):
        return [w(*q) for w in ws]

    def mem(q):
        ps = list(zip(ks, wit(q)))
        return AND(sub(zb(cond), ps), *[EQ(sub(x, ps), y) for x, y in zip(t, q)])
    st = st.copy()
    ax = z3.Implies(zb(cond), zb(mem(t)))
    if kind:
        ax = z3.And(ax, z3.Implies(zb(cond), z3.And([w == k for w, k in zip(wit(t), ks)])))
    st.pc.append((z3.ForAll(ks, ax), False))
    return st, mem, wit


def final_dict(eng, st, o, h, hraw, ks, c, norm, a, terms, inj, names, s0):
    layers, firsts = [], []
    for t in terms:
        kind = inj[(a, id(t))]
        if kind:
            pd = [(pc, settle(eng, s2, s2.heap[a].dom(t[0]), names)) for s2, pc, _ in norm]
            pv = [(pc, UNDEF if d is False else settle(eng, s2, s2.heap[a].val(t[0]), names)) for (s2, pc, _), (_, d) in zip(norm, pd)]
            if any(has_h(zb(p), names) for p, _ in pd):
                import os
                if os.environ.get("OBJDEBUG"):
                    print("PATHS", pd, "EXC")
                    print([str(x) for x in s0.pcs()])
                raise Unsupported("path depends on other iterations")
            d, v = nest(pd), nest(pv)
            if has_h(zb(d), names) or has_h(v if z3.is_expr(v) or isinstance(v, tuple) else z3.BoolVal(True), names):
                raise Unsupported("effect depends on other iterations")
            st, mem, wit = locate(eng, st, ks, c, t, kind)
            layers.append(("over", mem, wit, d, v))
            continue
        # foreign or constant key
        acc = accumulate(eng, h, hraw, ks, c, norm, a, t, names, s0)
        if acc is not None:
            wr, inc, certain = acc
            st, mem, wit = locate(eng, st, ks, AND(c, wr), t, False)
            q = var(h.ksort)
            eng.ctx.append(q)
            S = eng.SUM(ks, AND(c, wr, *[EQ(x, y) for x, y in zip(t, (q,))]), inc)
            eng.ctx.pop()
            layers.append(("acc", mem, wit, q, S))
            continue
        fst = first_write(eng, h, hraw, ks, c, norm, a, t, names)
        if fst is not None:
            v, again = fst
            st, mem, wit = locate(eng, st, ks, c, t, False)
            layers.append(("first", mem, wit, True, v))
            firsts.append((t, again))
            continue
        w = [(pc, s2) for s2, pc, _ in norm if writes(s2.heap[a], t)]
        if not w:
            continue
        wr = OR(*[pc for pc, _ in w])
        d = nest([(pc, s2.heap[a].dom(t[0])) for pc, s2 in w])
        v = nest([(pc, s2.heap[a].val(t[0])) for pc, s2 in w])
        if has_h(zb(wr), names) or has_h(zb(d), names) or has_h(v if z3.is_expr(v) or isinstance(v, tuple) else z3.BoolVal(True), names):
            raise Unsupported("effect at a shared key depends on other iterations")
        st, mem, wit = locate(eng, st, ks, AND(c, wr), t, False)
        layers.append(("over", mem, wit, d, v))

    def dom(q):
        r = o.dom(q)
        for l in layers:
            if l[0] == "over":
                r = IT(l[1]((q,)), sub(zb(l[3]), list(zip(ks, l[2]((q,))))), r)
            else:
                r = OR(r, l[1]((q,)))
        return r

    def val(q):
        r = o.val(q)
        od = o.dom(q)
        for l in layers:
            if l[0] == "over":
                r = IT(l[1]((q,)), sub(l[4], list(zip(ks, l[2]((q,))))), r)
            elif l[0] == "first":
                w = sub(l[4], list(zip(ks, l[2]((q,)))))
                r = w if isinstance(r, Undef) else IT(od, r, IT(l[1]((q,)), w, r))
            else:
                b = z3.RealVal(0) if isinstance(r, Undef) else IT(od, real(r), z3.RealVal(0))
                r = b + sub(l[4], [(l[3], q)])
        return r
    E = None
    if o.E is not None and h.E is not None:
        ok = all(s2.heap[a].E is not None and eng.proves(s2.pcs(), s2.heap[a].E == h.E, 4000) for s2, _, _ in norm)
        E = o.E if ok else None
    for t, again in firsts:
        if len(terms) == 1:
            # exceptional exits: what was there came from the start or an earlier element
            q = var(h.ksort)
            ks2 = [var(k.sort()) for k in ks]
            v = next(l[4] for l in layers if l[0] == "first")
            ps = list(zip(ks, ks2))
            try:
                came = z3.Exists(ks2, z3.And(sub(c, ps), q == sub(t[0], ps), zb(EQ(hraw.val(q), sub(v, ps)))))
                eng.hfacts.append(z3.ForAll([q], z3.Implies(zb(AND(hraw.dom(q), NOT(o.dom(q)))), came)))
            except Unsupported:
                pass
        # what an iteration required of a value written earlier holds of the final one
        st.pc.append((z3.ForAll(ks, z3.Implies(c, zb(again(dom(t[0]), val(t[0]))))), False))
    return st, DictO(h.ksort, dom, val, o.default if isinstance(o, DictO) else None, E)


def first_write(eng, h, hraw, ks, c, norm, a, t, names):
    """the body writes at t exactly when t is absent: (value, what it requires otherwise)"""
    hd, hv = hraw.dom(t[0]), hraw.val(t[0])
    if not z3.is_expr(hd):
        return None
    vals = []
    for s2, pc, _ in norm:
        if writes(s2.heap[a], t):
            if not eng.proves(s2.pcs(), z3.Not(hd), 1000):
                return None
            d = s2.heap[a].dom(t[0])
            if not (d is True or eng.proves(s2.pcs(), d, 1000)):
                return None
            v = s2.heap[a].val(t[0])
            if has_h(v if z3.is_expr(v) or isinstance(v, tuple) else z3.BoolVal(True), names):
                return None
            p = z3.simplify(z3.substitute(zb(pc), (hd, z3.BoolVal(False))))
            if has_h(p, names):
                return None
            vals.append((p, v))
        elif not eng.proves(s2.pcs(), hd, 1000):
            return None
    if not vals:
        return None

    def flat(v):
        return [x for y in v for x in flat(y)] if isinstance(v, tuple) else [v] if z3.is_expr(v) else []

    # paths that find the key present constrain the value; the writing path wrote it
    def need(d, v):
        seen = []
        for s2, pc, _ in norm:
            if writes(s2.heap[a], t):
                q = z3.simplify(z3.substitute(zb(pc), (hd, z3.BoolVal(False))))
                w = s2.heap[a].val(t[0])
                try:
                    seen.append(AND(q, EQ(w, v)))
                except Unsupported:
                    return True
            else:
                q = z3.simplify(z3.substitute(zb(pc), (hd, z3.BoolVal(True)), *zip(flat(hv), flat(v))))
                if has_h(q, names):
                    return True
                seen.append(q)
        return OR(*seen)
    return nest(vals), need


def decide(eng, st, t):
    """replace comparisons of keys by their truth value where the path settles it"""
    seen, todo, atoms = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort().kind() == z3.Z3_UNINTERPRETED_SORT:
            atoms.append(x)
        todo += x.children()
    ps = []
    for x in atoms:
        if eng.proves(st.pcs(), z3.Not(x), 1000):
            ps.append((x, z3.BoolVal(False)))
        elif eng.proves(st.pcs(), x, 1000):
            ps.append((x, z3.BoolVal(True)))
    return z3.substitute(t, *ps) if ps else t


def settle(eng, st, v, names):
    """the value, with comparisons decided where other iterations would show"""
    if isinstance(v, tuple):
        return tuple(settle(eng, st, x, names) for x in v)
    if not z3.is_expr(v):
        return v
    if has_h(v, names):
        v = z3.simplify(decide(eng, st, v))
    if z3.is_bool(v):
        if eng.proves(st.pcs(), z3.Not(v), 500):
            return False
        if has_h(v, names) and eng.proves(st.pcs(), v, 1000):
            return True
    return v


def accumulate(eng, h, hraw, ks, c, norm, a, t, names, s0):
    """(write condition, increment, always present) if the body adds to the key"""
    hd, hv = hraw.dom(t[0]), hraw.val(t[0])
    if not (z3.is_expr(hv) and z3.is_arith(hv)):
        return None
    x = z3.Real("acc?x") if z3.is_real(hv) else z3.Int("acc?x")
    res = []
    always = not (hd is True) and all(eng.proves(s2.pcs(), hd, 1500) for s2, _, _ in norm)
    for b in (True,) if always else (True, False):
        ps = [(hd, z3.BoolVal(b)), (hv, x)]
        w = []
        for s2, pc, _ in norm:
            if not writes(s2.heap[a], t):
                continue
            p = z3.simplify(z3.substitute(zb(pc), *ps))
            if z3.is_false(p):
                continue
            d = s2.heap[a].dom(t[0])
            if not (d is True or z3.is_true(z3.simplify(zb(d))) or eng.proves(s2.pcs(), d, 1500)):
                return None
            v = z3.simplify(z3.substitute(decide(eng, s2, real(s2.heap[a].val(t[0]))), *ps))
            inc = z3.simplify(v - (real(x) if b else 0))
            if has_h(inc, names) or has_h(p, names) or "acc?x" in syms(inc) or "acc?x" in syms(p):
                return None
            w.append((p, inc))
        res.append(w)
    if not res[0]:
        return None
    if not always and not res[1]:
        return None
    w1 = OR(*[p for p, _ in res[0]])
    i1 = nest(res[0])
    certain = False
    if not always:
        w0, i0 = OR(*[p for p, _ in res[1]]), nest(res[1])
        if not eng.proves([c], z3.And(zb(w1) == zb(w0), z3.Implies(zb(w1), real(i1) == real(i0))), 2000):
            return None
    return w1, i1, certain


def final_set(eng, st, o, h, ks, c, norm, a, terms, inj, names):
    layers = []
    for t in terms:
        kind = inj[(a, id(t))]
        w = norm if kind else [x for x in norm if writes(x[0].heap[a], t)]
        if not w:
            continue        # written only on the way to an exception
        wr = c if kind else AND(c, OR(*[pc for _, pc, _ in w]))
        m = nest([(pc, s2.heap[a].mem(t[0])) for s2, pc, _ in w])
        if has_h(zb(wr), names) or has_h(zb(m), names):
            raise Unsupported("set update depends on other iterations")
        st, mem, wit = locate(eng, st, ks, wr, t, kind)
        layers.append((mem, wit, m))

    def mem(q):
        r = o.mem(q)
        for l in layers:
            r = IT(l[0]((q,)), sub(zb(l[2]), list(zip(ks, l[1]((q,))))), r)
        return r
    return st, SetO(h.ksort, mem)


def final_arr(eng, st, o, h, ks, c, norm, a, terms, inj, names):
    layers = []
    for t in terms:
        kind = inj[(a, id(t))]
        if kind == "own":
            kind = True
        w = norm if kind else [x for x in norm if writes(x[0].heap[a], t)]
        if not w:
            continue
        wr = c if kind else AND(c, OR(*[pc for _, pc, _ in w]))
        v = nest([(pc, s2.heap[a].get(*t)) for s2, pc, _ in w])
        if has_h(zb(wr), names) or has_h(v, names):
            raise Unsupported("array update depends on other iterations")
        st, mem, wit = locate(eng, st, ks, wr, t, kind)
        layers.append((mem, wit, v))

    def get(*q):
        r = o.get(*q)
        for l in layers:
            r = IT(l[0](q), sub(l[2], list(zip(ks, l[1](q)))), r)
        return r
    return st, ArrO(h.shape, get)


def final_list(eng, o, ks, c, norm, a):
    parts = list(o.parts)
    adds = []
    for s2, pc, _ in norm:
        ps = s2.heap[a].parts
        if ps and isinstance(ps[0], HPart):
            ps = ps[1:]
        if any(isinstance(p, HPart) for p in ps):
            raise Unsupported("list rebuilt in a loop")
        if len(ps) > 1:
            raise Unsupported("several elements appended per iteration")
        adds.append((pc, ps))
    nz = [(pc, ps[0]) for pc, ps in adds if ps]
    if not nz:
        return o
    if any(has_h(zb(pc), set()) for pc, _ in nz):
        raise Unsupported("list growth depends on other iterations")
    if all(isinstance(p, tuple) for _, p in nz):
        w = OR(*[pc for pc, _ in nz])
        try:
            el = nest([(pc, p[1]) for pc, p in nz])
            return LstO(parts + [Gen(ks, AND(c, w), el)])
        except Unsupported:
            pass
    for pc, p in nz:
        if isinstance(p, tuple):
            parts.append(Gen(ks, AND(c, pc), p[1]))
        else:
            # lists that grow by as much in every iteration are aligned
            own = len(norm) == 1 and isinstance(p.seq, tuple) and p.seq[0] in ("dict", "listed", "const")
            parts.append(Gen(ks + p.vars, AND(c, pc, p.cond), p.elem, ("loop", tuple(k.decl().name() for k in ks), p.seq[1:], p.seq[0] == "const") if own else None))
    return LstO(parts)


def final_local(eng, init, h, name, ks, c, norm, names):
    """sum or product accumulators; anything else is unknown after the loop"""
    if init is ABSENT or h is None or h is ABSENT or not (z3.is_expr(h) and z3.is_arith(h)):
        return ABSENT
    vals = [(pc, s2.env.get(name, ABSENT)) for s2, pc, _ in norm]
    if any(v is ABSENT or not isnum(v) or has_h(zb(pc), names) for pc, v in vals):
        return ABSENT
    add, mul = [], []
    for pc, v in vals:
        v = real(v)
        d = z3.simplify(v - real(h))
        add.append((pc, None if has_h(d, names) else d))
        one = z3.simplify(z3.substitute(v, (h, z3.RealVal(1) if z3.is_real(h) else z3.IntVal(1))))
        ok = not has_h(one, names) and eng.proves([], v == real(h) * one, 1000)
        mul.append((pc, one if ok else None))
    if all(x is not None for _, x in add):
        inc = nest(add)
        return real(init) + eng.SUM(ks, c, inc)
    if all(x is not None for _, x in mul):
        return real(init) * eng.PROD(ks, c, nest(mul))
    return ABSENT


def invariant_loop(eng, node, st, it, spec):
    """loop with an invariant from the contract file: spec(eng, st, st0, V) ->
    [(name, fact)], V the visited elements.  For a sequence V is a prefix."""
    ks = [var(v.sort(), "k") for v in it.vars]
    c, e = it.at(ks)
    c = zb(c)
    eng.ctx += ks
    try:
        s0 = st.copy()
        s0.pc.append((c, True))
        if not eng.feasible(s0):
            return [(st, ("next",))]
        M, L = discover(eng, node, st, s0, e)
        eng.rules.append((eng.cur, node.lineno, "invariant"))
        none = (lambda *q: False)
        for nm, g in spec(eng, st, st, none):
            eng.oblige(st, g, f"invariant `{nm}` holds before the loop", "inv")
        s = s0.copy()
        for a, like in M.items():
            s.heap[a] = abstract(eng, st.heap[a], like, set())
        for v in L:
            if v in s.env:
                s.env[v] = abstract_local(eng, s.env[v])
        if it.seq == "index":
            V = lambda *q: AND(sub(c, list(zip(ks, q))), q[0] < ks[0])
        else:
            f = eng.fresh("visited", B, *[k.sort() for k in ks])
            qs = [var(k.sort()) for k in ks]
            s.pc.append((z3.ForAll(qs, z3.Implies(f(*qs), sub(c, list(zip(ks, qs))))), False))
            s.pc.append((z3.Not(f(*ks)), False))
            V = f
        for nm, g in spec(eng, s, st, V):
            s.pc.append((zb(g), False))
        outs = run_body(eng, node, s, e)
        V2 = lambda *q: OR(V(*q), AND(*[EQ(x, k) for x, k in zip(q, ks)]))
        results = []
        for s2, o in outs:
            if o[0] in ("next", "continue"):
                s3 = s2.copy()
                for nm, g in spec(eng, s3, st, V2):
                    eng.oblige(s3, g, f"invariant `{nm}` is preserved", "inv")
            else:
                s4 = s2.copy()
                results.append((s4, ("next",) if o[0] == "break" else o))
        fin = st.copy()
    finally:
        del eng.ctx[len(eng.ctx) - len(ks):]
    for a, like in M.items():
        fin.heap[a] = abstract(eng, st.heap[a], like, set())
    for v in L:
        fin.env[v] = abstract_local(eng, st.env[v]) if v in st.env else ABSENT
    for v in target_names(node.target):
        fin.env[v] = ABSENT
    full = (lambda *q: sub(c, list(zip(ks, q))))
    for nm, g in spec(eng, fin, st, full):
        fin.pc.append((zb(g), False))
    results.append((fin, ("next",)))
    return results
