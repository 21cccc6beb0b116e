"""Verify methods against contracts over object state."""
import os
import time
import z3

from .values import Unsupported, PoisonRead
from .verify import FunctionReport, find_function
from .objvc import *
from . import objvc as O


class Post:
    """what a contract sees: the objects in a state"""

    def __init__(self, eng, st, selfref):
        self.eng, self.st, self.ref = eng, st, selfref

    def __getitem__(self, attr):
        v = self.obj(self.st.heap[self.ref.a].attrs[attr])
        if isinstance(v, DictO) and (v.ksort is None or isinstance(v.val(var(v.ksort)), O.Undef)):
            # an empty dictionary has the type the attribute had before
            r = self.eng.st0.heap[self.ref.a].attrs.get(attr)
            o = self.eng.st0.heap[r.a] if isinstance(r, Ref) else None
            if isinstance(o, DictO):
                return DictO(o.ksort, v.dom, o.val, v.default, v.E)
        if isinstance(v, O.LazySet):
            r = self.eng.st0.heap[self.ref.a].attrs.get(attr)
            o = self.eng.st0.heap[r.a] if isinstance(r, Ref) else None
            if isinstance(o, SetO):
                return SetO(o.ksort, lambda q: False)
        return v

    def obj(self, v):
        return self.st.heap[v.a] if isinstance(v, Ref) else v

    def has(self, attr):
        return self.st.heap[self.ref.a].attrs.get(attr, ABSENT) is not ABSENT


def verify_method(prog, c, budget_s=60):
    rep = FunctionReport(c["name"])
    t0 = time.time()
    eng = ObjEngine(prog, c.get("stubs"), c.get("loops"), c.get("attrs"), budget_s)
    eng.cur = c["name"]
    eng.patience = c.get("patience", eng.patience)
    eng.cur_fn = c.get("fn", "").split(".")[-1]
    try:
        (_lemma if c.get("lemma") else _verify)(eng, rep, c, prog)
    except Unsupported as e:
        rep.status, rep.reason = "unsupported", str(e)
        if os.environ.get("OBJDEBUG"):
            raise
    except z3.Z3Exception as e:
        if os.environ.get("OBJDEBUG"):
            raise
        rep.status, rep.reason = "unsupported", f"encoding: {e}"
    except RecursionError:
        rep.status, rep.reason = "unsupported", "recursion limit"
    except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.status = "unsupported"
        rep.reason = f"outside the subset ({type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno})"
        if os.environ.get("OBJDEBUG"):
            raise
    rep.obls = eng.obls if rep.status is None else []
    ax = [zb(x) for x in list(eng.axioms) + O.string_axioms() + list(c.get("axioms", []))]
    for o in rep.obls:
        o.pc = ax + o.pc
        if getattr(o, "drop", ()):      # hypotheses about other things are not needed (dropping is sound)
            o.pc = [p for p in o.pc if not any(n.startswith(d) for n in syms(p) for d in o.drop)]
    rep.rules, rep.lib, rep.inlined, rep.notes, rep.side = eng.rules, sorted(eng.used_lib), sorted(eng.inlined), eng.notes, eng.side
    rep.time = time.time() - t0
    return rep


def _verify(eng, rep, c, prog):
    mod, node = find_function(prog, c["module"], c["fn"])
    if node is None:
        raise Unsupported("function not found in the current source")
    st = St()
    eng.axioms += list(c.get("axioms", []))
    ctx = c["setup"](eng, st)
    pre = eng.st0 = st.copy()
    for nm, g in ctx.get("requires", []):
        st.pc.append((zb(g), False))
    s = eng.solver(3000)
    s.add(*st.pcs())
    r = s.check()
    if r == z3.unsat:
        raise Unsupported("contradictory precondition")
    rep.vacuity = f"precondition {r}"
    cls = c["fn"].split(".")[0] if "." in c["fn"] else None
    f = Fn(node, mod, None, c["fn"].split(".")[-1], (c["module"], cls) if cls else None)
    selfref = ctx.get("self")
    args = ([selfref] if selfref is not None else []) + list(ctx.get("args", []))
    outs = eng.run(st, f, args, dict(ctx.get("kw", {})))
    reach = 0
    allowed = c.get("raises", {})
    for s2, v in outs:
        po, pr = Post(eng, s2, selfref), Post(eng, pre, selfref)
        if isinstance(v, Exc):
            if v.name in allowed:
                g = allowed[v.name]
                keep = ()
                if isinstance(g, tuple):
                    g, keep = g
                    frame(eng, pre, s2, selfref, {"modifies": keep}, ctx)
                for nm, gg in (g(eng, pr, po, ctx) if callable(g) else []):
                    for k, x in enumerate(conj(gg)):
                        eng.oblige(s2, x, f"{v.name} only if {nm}", "raise")
                continue
            eng.oblige(s2, False, f"no {v.name} is raised", "noraise")
            continue
        if not eng.proves(s2.pcs(), False, 700):
            reach += 1
        for nm, g in c["ensures"](eng, pr, po, v, ctx):
            for k, x in enumerate(conj(g)):
                eng.oblige(s2, x, nm + (f" [{k}]" if k else ""), "post")
        if selfref is not None:
            frame(eng, pre, s2, selfref, c, ctx)
        for nm, ref in ctx.get("inputs", {}).items():
            if s2.heap[ref.a] is not pre.heap[ref.a]:
                eng.oblige(s2, eng.same_obj(pre.heap[ref.a], s2.heap[ref.a]), f"argument {nm} is not modified", "frame")
            if selfref is not None and any(isinstance(x, Ref) and x.a == ref.a for x in s2.heap[selfref.a].attrs.values()):
                eng.oblige(s2, False, f"argument {nm} is not kept", "frame")
    if reach == 0 and not (c.get("may_not_return") and outs):
        raise Unsupported("no return path is reachable (vacuous)")
    rep.vacuity += f", {reach} return paths not refutable"
    if not eng.obls and c.get("settled_by_execution") and outs:
        eng.oblige(st, True, "every path ends as stated, and nothing is changed (settled by the execution)", "post")
    if not eng.obls:
        raise Unsupported("no obligation generated")


def _lemma(eng, rep, c, prog):
    """a consequence of contracts alone: hypotheses are postconditions proved elsewhere"""
    st = St()
    eng.axioms += list(c.get("axioms", []))
    hyps, goals = c["lemma"](eng, st)
    for g in hyps:
        st.pc.append((zb(g), False))
    s = eng.solver(3000)
    s.add(*st.pcs())
    r = s.check()
    if r == z3.unsat:
        raise Unsupported("contradictory hypotheses")
    rep.vacuity = f"hypotheses {r}"
    for nm, g, *drop in goals:
        for k, x in enumerate(conj(zb(g))):
            eng.oblige(st, x, nm + (f" [{k}]" if k else ""), "lemma")
            eng.obls[-1].drop = tuple(drop[0]) if drop else ()
        st.pc.append((zb(g), False))        # later goals may use what was proved before


def contract_stub(c):
    """use a function's contract at a call: its precondition is an obligation, the
    attributes it may change become arbitrary and its postcondition is assumed"""
    def handler(eng, st, args, kw):
        ref = args[0]
        ctx = {"self": ref, "args": args[1:], "kw": kw}
        pr = Post(eng, st, ref)
        for nm, g in c["call_requires"](eng, pr):
            eng.oblige(st, g, f"{c['fn']} is called with: {nm}", "pre")
        st = st.copy()
        pre = st.copy()
        pr = Post(eng, pre, ref)
        a = dict(st.heap[ref.a].attrs)
        for k, mk in c["havoc"].items():
            o = mk(eng, pr)
            a[k] = eng.alloc(st, o) if not (z3.is_expr(o) or o is ABSENT or isinstance(o, (str, bool))) else o
        st.heap[ref.a] = RecO(st.heap[ref.a].cls, a)
        outs = []
        for name, g in c.get("raises", {}).items():
            if isinstance(g, tuple):
                g = g[0]
            # whether it raises is a choice of the callee: a fresh condition keeps the outcomes apart
            flag = eng.fresh("raises", B)
            s2 = st.copy()
            s2.pc.append((flag, True))
            st.pc.append((z3.Not(flag), True))
            for nm, gg in (g(eng, pr, Post(eng, s2, ref), ctx) if callable(g) else []):
                s2.pc.append((zb(gg), True))
            if eng.feasible(s2):
                outs.append((s2, Exc(name)))
        for nm, g in c["ensures"](eng, pr, Post(eng, st, ref), None, ctx):
            st.pc.append((zb(g), False))
        outs.append((st, None))
        return outs
    return handler


def frame(eng, pre, s2, selfref, c, ctx):
    mod = set(c.get("modifies", ()))
    a0, a1 = pre.heap[selfref.a].attrs, s2.heap[selfref.a].attrs
    for k in a0:
        if k in mod:
            continue
        if k not in a1 or (a1[k] is ABSENT) != (a0[k] is ABSENT):
            eng.oblige(s2, False, f"self.{k} is left alone", "frame")
            continue
        v0, v1 = a0[k], a1[k]
        if isinstance(v0, Ref) and isinstance(v1, Ref):
            o0, o1 = pre.heap[v0.a], s2.heap[v1.a]
            if o0 is not o1:
                eng.oblige(s2, eng.same_obj(o0, o1), f"self.{k} is left alone", "frame")
        elif v0 is not v1:
            try:
                eng.oblige(s2, eng.same_val(v0, v1), f"self.{k} is left alone", "frame")
            except Unsupported:
                eng.oblige(s2, False, f"self.{k} is left alone", "frame")


def conj(g):
    if isinstance(g, bool):
        return [z3.BoolVal(g)]
    if z3.is_and(g):
        return [x for ch in g.children() for x in conj(ch)]
    return [g]


def _work(job):
    """verify one contract; the obligations come back as SMT-LIB text"""
    root, name, budget = job
    from .verify import Program, _smt2, relevant
    import contracts
    c = contracts.state_contracts()[name]
    rep = verify_method(Program(root), c, budget)
    for o in rep.obls:
        rel = relevant(o.pc, o.goal)
        o.text = (_smt2(o.pc, o.goal), _smt2(rel, o.goal) if len(rel) < len(o.pc) else "")
        o.pc, o.goal = [], None
    rep.stubs = sorted(c.get("stubs") or {})
    rep.engine = "state"
    rep.vals = None
    return rep


def verify_many(root, names, jobs, budget):
    """reports, longest first; a worker that dies makes its contract undecided"""
    from concurrent.futures import ProcessPoolExecutor
    import multiprocessing as mp
    out = []
    with ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
        fs = [(n, ex.submit(_work, (root, n, budget))) for n in names]
        for n, f in fs:
            try:
                out.append(f.result(timeout=budget * 4 + 60))
            except Exception as e:
                r = FunctionReport(n)
                r.status, r.reason, r.engine, r.stubs = "unsupported", f"the verifier stopped ({type(e).__name__}: {str(e)[:100]})", "state", []
                out.append(r)
    return out
