"""Reading back the linear program handed to MOSEK, and answering it.

`mosek.Task.optimize` needs a licence; building a task and querying it does
not.  Here `optimize` reads the whole program back from the task, solves it
with HiGHS, and the solution getters return that solution in MOSEK's
conventions.  The library code runs unchanged.
"""
from .base import *
import contextlib
import numpy as np
from scipy.optimize import linprog

INF = float("inf")


class LPData:
    """opt c.x + cfix subject to lc <= A x <= uc, lx <= x <= ux"""
    __slots__ = ("sense", "c", "cfix", "A", "lc", "uc", "lx", "ux", "params")

    @property
    def n(self):
        return len(self.c)

    @property
    def m(self):
        return len(self.lc)


def read_task(t):
    import mosek
    n, m = t.getnumvar(), t.getnumcon()
    d = LPData()
    d.sense = "max" if t.getobjsense() == mosek.objsense.maximize else "min"
    d.c = np.array([t.getcj(j) for j in range(n)], dtype=float)
    d.cfix = float(t.getcfix())
    d.A = np.zeros((m, n))
    for i in range(m):
        k, sub, val = t.getarow(i)
        for j, v in zip(sub[:k], val[:k]):
            d.A[i, j] += v

    def bound(b):
        bk, lo, up = b
        if bk == mosek.boundkey.fr:
            return -INF, INF
        if bk == mosek.boundkey.lo:
            return lo, INF
        if bk == mosek.boundkey.up:
            return -INF, up
        return lo, up
    cb = [bound(t.getconbound(i)) for i in range(m)]
    vb = [bound(t.getvarbound(j)) for j in range(n)]
    d.lc, d.uc = (np.array([b[k] for b in cb], dtype=float).reshape(m) for k in (0, 1))
    d.lx, d.ux = (np.array([b[k] for b in vb], dtype=float).reshape(n) for k in (0, 1))
    return d


def highs(c, A, lc, uc, lx, ux):
    """min c.x; ('optimal', x, obj) / ('infeasible',...) / ('unbounded',...) / ('other', ...)"""
    eq = (lc == uc)
    up = ~eq & (uc < INF)
    lo = ~eq & (lc > -INF)
    Aub = np.vstack((A[up], -A[lo]))
    bub = np.concatenate((uc[up], -lc[lo]))
    if (lx > ux).any() or (lc > uc).any():
        return "infeasible", None, None
    r = linprog(c, A_ub=Aub if len(bub) else None, b_ub=bub if len(bub) else None,
                A_eq=A[eq] if eq.any() else None, b_eq=lc[eq] if eq.any() else None,
                bounds=list(zip([None if x == -INF else x for x in lx], [None if x == INF else x for x in ux])), method="highs")
    if r.status == 0:
        return "optimal", r.x, r.fun
    if r.status == 2:
        return "infeasible", None, None
    if r.status == 3:
        return "unbounded", None, None
    # "infeasible or unbounded" is reported as 4 by some versions
    z = highs(np.zeros_like(c), A, lc, uc, lx, ux) if np.any(c) else ("other", None, None)
    return ("infeasible" if z[0] == "infeasible" else "unbounded" if z[0] == "optimal" else "other"), None, None


def dual_parts(d):
    """columns of the multiplier vector: (lc finite, uc finite, lx finite, ux finite) all >= 0, for a minimisation"""
    I = [np.flatnonzero(x) for x in (d.lc > -INF, d.uc < INF, d.lx > -INF, d.ux < INF)]
    E = np.eye(d.n)
    M = np.hstack((d.A[I[0]].T, -d.A[I[1]].T, E[:, I[2]], -E[:, I[3]])) if d.n else np.zeros((0, sum(map(len, I))))
    g = np.concatenate((d.lc[I[0]], -d.uc[I[1]], d.lx[I[2]], -d.ux[I[3]]))
    return I, M, g


class Answer:
    pass


def answer(d):
    """solve, in MOSEK's conventions (for maximisation every multiplier is non-positive)"""
    s = 1.0 if d.sense == "min" else -1.0
    a = Answer()
    st, x, f = highs(s * d.c, d.A, d.lc, d.uc, d.lx, d.ux)
    I, M, g = dual_parts(d)
    k = [len(i) for i in I]
    a.x = np.zeros(d.n)
    a.y = np.zeros(d.m)
    a.slx = np.zeros(d.n)
    a.sux = np.zeros(d.n)

    def setdual(w):
        w = np.split(w, np.cumsum(k)[:-1])
        slc, suc = np.zeros(d.m), np.zeros(d.m)
        slc[I[0]], suc[I[1]], a.slx[I[2]], a.sux[I[3]] = w
        a.slc, a.suc = s * slc, s * suc
        a.y = a.slc - a.suc
        a.slx, a.sux = s * a.slx, s * a.sux
    setdual(np.zeros(sum(k)))
    if st == "optimal":
        a.status = "optimal"
        a.x = x
        a.pobj = float(d.c @ x + d.cfix)
        r = linprog(-g, A_eq=M, b_eq=s * d.c, bounds=[(0, None)] * len(g), method="highs") if len(g) else None
        if r is not None and r.status == 0:
            setdual(r.x)
            a.dobj = s * float(g @ r.x) + d.cfix
        elif r is None:
            a.dobj = d.cfix
        else:
            raise Skip("no dual solution")
        if abs(a.dobj - a.pobj) > 1e-6 * (1 + abs(a.pobj)):
            raise Skip("duality gap")
    elif st == "infeasible":
        a.status = "prim_infeas_cer"
        a.pobj = a.dobj = 0.0
        if len(g):
            r = linprog(-g, A_eq=M, b_eq=np.zeros(d.n), bounds=[(0, 1)] * len(g), method="highs")
            if r.status != 0 or -r.fun < 1e-7:
                raise Skip("no Farkas ray")
            setdual(r.x)
            a.dobj = s * float(g @ r.x)
    elif st == "unbounded":
        a.status = "dual_infeas_cer"
        fz = lambda v: np.where(np.isfinite(v), 0.0, v)
        st2, x, f = highs(s * d.c, d.A, fz(d.lc), fz(d.uc), np.maximum(fz(d.lx), -1), np.minimum(fz(d.ux), 1))
        if st2 != "optimal":
            raise Skip("no ray")
        a.x, a.pobj, a.dobj = x, float(d.c @ x), 0.0
    else:
        raise Skip("solver gave up")
    return a


@contextlib.contextmanager
def spy():
    """records [LPData, Answer] of every optimisation"""
    import mosek
    T = mosek.Task
    log = []
    saved = {}

    def put(name, f):
        if hasattr(T, name):
            saved[name] = getattr(T, name)
            setattr(T, name, f)

    def optimize(self, *a):
        d = read_task(self)
        ans = answer(d)
        log.append((d, ans))
        self._verif = ans
        return mosek.rescode.ok

    def solsta(self, *a):
        return getattr(mosek.solsta, self._verif.status)

    def prosta(self, *a):
        return {"optimal": mosek.prosta.prim_and_dual_feas, "prim_infeas_cer": mosek.prosta.prim_infeas, "dual_infeas_cer": mosek.prosta.dual_infeas}[self._verif.status]

    def getsolution(self, *a):
        v = self._verif
        return (prosta(self), solsta(self), [], [], [], None, list(v.x), list(v.y), list(v.slc), list(v.suc), list(v.slx), list(v.sux), [0.0] * len(v.x))
    put("optimize", optimize)
    put("getsolution", getsolution)
    put("getsolsta", solsta)
    put("getprosta", prosta)
    put("getprimalobj", lambda self, *a: self._verif.pobj)
    put("getdualobj", lambda self, *a: self._verif.dobj)
    put("getxx", lambda self, *a: list(self._verif.x))
    put("gety", lambda self, *a: list(self._verif.y))
    put("getslx", lambda self, *a: list(self._verif.slx))
    put("getsux", lambda self, *a: list(self._verif.sux))
    put("getslc", lambda self, *a: list(self._verif.slc))
    put("getsuc", lambda self, *a: list(self._verif.suc))
    put("putintparam", lambda self, *a: log.append(("param",) + tuple(map(str, a))))
    put("putdouparam", lambda self, *a: log.append(("param",) + tuple(map(str, a))))
    put("putstrparam", lambda self, *a: log.append(("param",) + tuple(map(str, a))))
    put("solutionsummary", lambda self, *a: None)
    put("writedata", lambda self, *a: None)
    try:
        yield log
    finally:
        for k, f in saved.items():
            setattr(T, k, f)


def programs(log):
    return [e for e in log if not (isinstance(e[0], str) and e[0] == "param")]


# ------------------------------------------------------------ specification
class Prog:
    """maximise c.x subject to G x >= h, E x = f   (the program as stated)"""

    def __init__(self, names):
        self.names = list(names)
        self.ix = {v: i for i, v in enumerate(self.names)}
        self.c = np.zeros(len(self.names))
        self.ge = []
        self.eq = []

    def row(self, d):
        r = np.zeros(len(self.names))
        for k, v in d.items():
            r[self.ix[k]] += v
        return r

    def add_ge(self, d, h=0.0):
        self.ge.append((self.row(d), float(h)))

    def add_eq(self, d, h=0.0):
        self.eq.append((self.row(d), float(h)))


def halves(P):
    return P.ge + P.eq + [(-r, -h) for r, h in P.eq]


def norm(rows):
    """normal forms of rows r.x >= h, strongest bound per direction"""
    out = {}
    for r, h in rows:
        m = np.abs(r).max() if len(r) else 0
        if m < 1e-12:
            if h <= 1e-12:
                continue
            out[("never",)] = 1.0
            continue
        k = tuple(np.round(r / m, 9) + 0.0)
        out[k] = max(out.get(k, -INF), h / m)
    return out


def implied(k, h, rows, n, feasible=True):
    """do the rows imply k.x >= h (by LP duality)?"""
    if not rows:
        return False
    A = np.array([r for r, _ in rows])
    st, x, f = highs(np.array(k), A, np.array([b for _, b in rows]), np.full(len(rows), INF), np.full(n, -INF), np.full(n, INF))
    if st == "infeasible":
        return None
    return st == "optimal" and f >= h - 1e-6


def same(P, Q):
    """'' if the two programs have the same constraints and objective, else what differs"""
    if P.names != Q.names:
        return f"variables differ: {P.names} / {Q.names}"
    if np.abs(P.c - Q.c).max(initial=0) > 1e-9:
        return f"objective differs: stated {dict(zip(P.names, P.c))}, handed over {dict(zip(Q.names, Q.c))}"
    a, b = norm(halves(P)), norm(halves(Q))
    if a.keys() == b.keys() and all(abs(a[k] - b[k]) < 1e-7 * (1 + abs(a[k])) for k in a):
        return ""

    def show(k, h):
        return " + ".join(f"{v:.6g}*{n}" for v, n in zip(k, P.names) if v) + f" >= {h:.6g}"
    for x, y, what in ((a, halves(Q), "stated but not handed over"), (b, halves(P), "handed over but not stated")):
        o = b if x is a else a
        for k, h in x.items():
            if k in o and o[k] >= h - 1e-7 * (1 + abs(h)):
                continue
            if k == ("never",):
                if implied(np.zeros(len(P.names)), 1, y, len(P.names)) is None:
                    continue
                return f"constraint {what}: contradiction"
            im = implied(k, h, y, len(P.names))
            if im is None:
                # an infeasible program implies everything: both must then be infeasible
                continue
            if not im:
                return f"constraint {what}: {show(k, h)}"
    return ""


def as_primal(d, names):
    """the program over `names` the arrays describe, read as such; None when the sizes do not fit"""
    if d.n != len(names):
        return None
    Q = Prog(names)
    s = 1.0 if d.sense == "max" else -1.0
    Q.c = s * d.c
    for i in range(d.m):
        if d.lc[i] == d.uc[i]:
            Q.eq.append((d.A[i], d.lc[i]))
        else:
            if d.lc[i] > -INF:
                Q.ge.append((d.A[i], d.lc[i]))
            if d.uc[i] < INF:
                Q.ge.append((-d.A[i], -d.uc[i]))
    E = np.eye(d.n)
    for j in range(d.n):
        if d.lx[j] > -INF:
            Q.ge.append((E[j], d.lx[j]))
        if d.ux[j] < INF:
            Q.ge.append((-E[j], -d.ux[j]))
    return Q


def as_dual(d, names):
    """the program over `names` whose LP dual the arrays are"""
    if d.m != len(names):
        return None
    if any(not (l in (0.0, -INF) and u in (0.0, INF)) for l, u in zip(d.lx, d.ux)):
        return None
    Q = Prog(names)
    s = 1.0 if d.sense == "min" else -1.0
    # min b.y : A y {>=,=,<=} c, y sign  <->  max c.x : A^T x {<=,=,>=} b, x sign
    E = np.eye(d.m)
    for j in range(d.m):
        lo, up = d.lc[j], d.uc[j]
        if lo == up:
            Q.c[j] = lo
        elif lo > -INF and up == INF:
            Q.c[j] = lo
            Q.ge.append((s * E[j], 0.0))
        elif up < INF and lo == -INF:
            Q.c[j] = up
            Q.ge.append((-s * E[j], 0.0))
        else:
            return None
    for i in range(d.n):
        r, b = d.A[:, i], d.c[i]
        lo, up = d.lx[i], d.ux[i]
        if lo == -INF and up == INF:
            Q.eq.append((r, b))
        elif lo == 0.0 and up == INF:
            Q.ge.append((-s * r, -s * b))
        elif lo == -INF and up == 0.0:
            Q.ge.append((s * r, s * b))
        else:
            continue  # fixed at zero: no constraint
    if s < 0:
        Q.c = -Q.c
        # max b.y with A y <= c corresponds to min c.x, i.e. max -c.x
    return Q


def check_same(P, d):
    """the arrays describe the stated program, as it is or as its dual"""
    msgs = []
    for f in (as_primal, as_dual):
        Q = f(d, P.names)
        if Q is None:
            continue
        m = same(P, Q)
        if not m:
            return ""
        msgs.append(m)
    return " / ".join(msgs) or f"the arrays ({d.m} x {d.n}) describe no program over the {len(P.names)} stated variables"
