"""Verify functions against their contracts: generate and discharge obligations."""
import ast
import multiprocessing as mp
import os
import subprocess
import tempfile
import time
import z3

from .values import *
from . import values as V
from .engine import Engine, Program, Obligation


class FunctionReport:
    def __init__(self, name):
        self.name = name
        self.status = None      # proved | failed | undecided | unsupported
        self.reason = ""
        self.obls = []
        self.rules = []
        self.lib = []
        self.inlined = []
        self.contracts_used = []
        self.vacuity = ""
        self.time = 0.0
        self.side = 0
        self.vals = None
        self.notes = []


def find_function(prog, module, name):
    mod = prog.module(module)
    if "." in name:
        c, f = name.split(".")
        return mod, mod.classes.get(c, {}).get(f)
    return mod, mod.funcs.get(name)


def verify_function(prog, contract, contracts, invs, budget_s=60):
    """symbolically execute the function; returns (report, engine)"""
    rep = FunctionReport(contract["name"])
    t0 = time.time()
    eng = Engine(prog, contracts, invs, budget_s)
    eng.cur = contract["name"]
    eng.top_name = contract["name"].split(".")[-1] if False else contract["name"]
    try:
        mod, node = find_function(prog, contract["module"], contract["name"])
        if node is None:
            raise Unsupported("function not found in the current source")
        _run(eng, rep, contract, mod, node)
    except (Unsupported, PoisonRead) as e:
        rep.status = "unsupported"
        rep.reason = str(e) if isinstance(e, Unsupported) else f"variable {e.name} possibly unbound"
    except z3.Z3Exception as e:
        rep.status = "unsupported"
        rep.reason = f"encoding: {e}"
    except RecursionError:
        rep.status = "unsupported"
        rep.reason = "recursion limit"
    except (TypeError, AttributeError, KeyError, IndexError, ValueError) as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rep.status = "unsupported"
        rep.reason = f"outside the subset ({type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno})"
    rep.obls = eng.obls if rep.status is None else []
    rep.rules = eng.rules
    rep.lib = sorted(eng.used_lib)
    rep.inlined = sorted(eng.inlined)
    rep.notes = eng.notes
    rep.side = eng.side_proofs
    rep.time = time.time() - t0
    return rep


def _run(eng, rep, contract, mod, node):
    from .values import Func
    st = State()
    vals = contract["make"](eng, st)
    rep.vals = dict(vals)
    params = [p.arg for p in node.args.posonlyargs + node.args.args]
    # bind by position
    ghosts = {k: v for k, v in vals.items() if k.startswith("_")}
    vals = {k: v for k, v in vals.items() if not k.startswith("_")}
    names = list(vals)
    if len(names) > len(params):
        raise Unsupported("signature changed")
    env, view, roots = {}, dict(ghosts), {}
    for nm, pn in zip(names, params):
        v = vals[nm]
        if isinstance(v, A):
            r = st.alloc(v)
            roots[nm] = (r.rid, v)
            env[pn] = r
            view[nm] = v
        else:
            env[pn] = v
            view[nm] = v
    for pn, d in zip(params[len(params) - len(node.args.defaults):], node.args.defaults):
        if pn not in env:
            env[pn] = eng.const_default(d)
    missing = [p for p in params if p not in env]
    if missing:
        raise Unsupported(f"signature changed: {missing}")
    st.env = env
    eng.param_view = view
    for nm, g in contract["requires"](eng, view):
        st.pc.append(V.zb(g))
    npre = len(st.pc)
    # vacuity: the precondition is satisfiable (or at least not refutable)
    s = eng.solver(3000)
    s.add(*st.pc)
    r = s.check()
    if r == z3.unsat:
        raise Unsupported("contradictory precondition")
    rep.vacuity = f"precondition {r}"
    f = Func(node, mod)
    eng.func_stack.append(f)
    outs = eng.block(node.body, st)
    eng.func_stack.pop()
    reach = 0
    for s2, o in outs:
        if o[0] == "exc":
            ok = contract.get("raises", ())
            if o[1] in ok:
                for nm, g in contract.get("on_raise", lambda e, v: [])(eng, view):
                    eng.oblige(s2, g, f"raises {o[1]} only if {nm}", "raise")
                continue
            eng.oblige(s2, False, f"no {o[1]} is raised", "noraise")
            continue
        val = o[1] if o[0] == "ret" else None
        if eng.is_array(s2, val):
            val = eng.snap(s2, val)
        elif isinstance(val, Filt):
            s2 = s2.copy()
            s2, rr = eng.np.materialize(eng, s2, val)
            val = eng.snap(s2, rr)
        elif isinstance(val, Ref) and isinstance(s2.heap[val.rid], (ListObj, SeqObj)):
            o2 = s2.heap[val.rid]
            val = o2 if isinstance(o2, SeqObj) else [eng.snap(s2, x) if eng.is_array(s2, x) else x for x in o2.items]
        elif isinstance(val, tuple):
            val = tuple(eng.snap(s2, x) if eng.is_array(s2, x) else x for x in val)
        # must-fail assertion: the path is not contradictory
        if not eng.proves(s2.pc, False, 1500):
            reach += 1
        view2 = dict(view)
        view2["_state"] = s2
        for nm, g in contract["ensures"](eng, view2, val):
            for k, gg in enumerate(split(g)):
                eng.oblige(s2, gg, nm + (f" [{k}]" if k else ""), "post")
        for nm, (rid, v) in roots.items():
            if s2.heap[rid] is not v and nm not in contract.get("modifies", ()):
                cur = s2.heap[rid]
                eng.oblige(s2, FA(v.ndim, lambda *k: EQ(cur.get(*k), v.get(*k))), f"argument {nm} is not modified", "frame")
    if reach == 0:
        raise Unsupported("no return path is reachable (vacuous)")
    rep.vacuity += f", {reach} return paths not refutable"


def split(g):
    g = to_bool(g)
    if isinstance(g, bool):
        return [] if g else [False]
    if z3.is_and(g):
        return [x for c in g.children() for x in split(c)]
    return [g]


# ------------------------------------------------------------------ discharge
def _smt2(pc, goal):
    s = z3.Solver()
    s.add(*pc)
    s.add(z3.Not(goal))
    return s.to_smt2()


def symbols(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo += x.children()
    return out


def relevant(pc, goal):
    """hypotheses connected to the goal (dropping hypotheses is sound): all
    quantifier-free ones, and quantified ones whose function symbols all occur
    in the goal or in the last hypotheses"""
    from .npmodel import has_quant
    gs = symbols(goal)
    for p in pc[-4:]:
        gs |= symbols(p)
    return [p for k, p in enumerate(pc) if not has_quant(p) or symbols(p) <= gs]


def _attempt(job):
    text, ms, tier = job[:3]
    t0 = time.time()
    if len(job) > 3 and job[3]:
        ctx = z3.Context()
        s = z3.Solver(ctx=ctx)
        s.set("timeout", int(ms) // 5)
        s.from_string(job[3])
        if s.check() == z3.unsat:
            return ("proved", "z3/relevant", "", time.time() - t0)
    ctx = z3.Context()

    def go(opts, t):
        s = z3.Solver(ctx=ctx)
        for k, v in opts.items():
            s.set(k, v)
        s.set("timeout", int(t))
        s.from_string(text)
        return s.check(), s
    best = ("unknown", "", "")
    for nm, opts, t in (("z3", {}, ms // 3), ("z3/ematch", {"auto_config": False, "mbqi": False}, ms // 3),
                        ("z3/seed", {"random_seed": 7}, ms // 3)):
        try:
            r, s = go(opts, t)
        except z3.Z3Exception as e:
            best = ("unknown", nm, str(e))
            continue
        if r == z3.unsat:
            return ("proved", nm, "", time.time() - t0)
        if r == z3.sat and nm != "z3/ematch":
            m = str(s.model())
            return ("refuted", nm, m[:4000], time.time() - t0)
        best = ("unknown", nm, s.reason_unknown())
    r = cvc5_try(text, ms)
    if r == "unsat":
        return ("proved", "cvc5", "", time.time() - t0)
    return best[:1] + best[1:] + (time.time() - t0,)


def cvc5_try(text, ms):
    exe = "/usr/local/bin/cvc5"
    import shutil
    exe = shutil.which("cvc5")
    if not exe:
        return "unknown"
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + text)
        name = f.name
    try:
        p = subprocess.run([exe, f"--tlimit={int(ms)}", name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(name)


def discharge(reports, ms=15000, jobs=None, wall_s=None):
    """prove all obligations of the reports, in parallel"""
    todo = []
    for rep in reports:
        for ob in rep.obls:
            todo.append((rep, ob))
    texts = []
    for _, ob in todo:
        if getattr(ob, "text", None):
            texts.append((ob.text[0], ms, "quick", ob.text[1]))
            continue
        rel = relevant(ob.pc, ob.goal)
        texts.append((_smt2(ob.pc, ob.goal), ms, "quick", _smt2(rel, ob.goal) if len(rel) < len(ob.pc) else ""))
    jobs = jobs or min(8, os.cpu_count() or 2)
    if texts:
        with mp.get_context("fork").Pool(jobs) as pool:
            res = [pool.apply_async(_attempt, (t,)) for t in texts]
            for (rep, ob), r in zip(todo, res):
                try:
                    st, solver, info, dt = r.get(timeout=ms / 1000 * 3 + 120)
                except mp.TimeoutError:
                    st, solver, info, dt = "unknown", "timeout", "", ms / 1000
                ob.status, ob.solver, ob.time = st, solver, dt
                if st == "refuted":
                    ob.model = info
                else:
                    ob.reason = info
    for rep in reports:
        if rep.status == "unsupported":
            continue
        if not rep.obls:
            rep.status, rep.reason = "unsupported", "no obligation generated"
            continue
        posts = [o for o in rep.obls]
        if all(o.status == "proved" for o in posts):
            rep.status = "proved"
        elif any(o.status == "refuted" for o in posts):
            rep.status = "failed"
            rep.reason = "; ".join(sorted({o.name for o in posts if o.status == "refuted"}))
        else:
            rep.status = "undecided"
            rep.reason = "; ".join(sorted({o.name for o in posts if o.status != "proved"}))
    return reports
