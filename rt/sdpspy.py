"""Reading back the semidefinite program handed to MOSEK, and answering it.

As in lpspy, `mosek.Task.optimize` is replaced: the program is read back from
the task.  No SDP solver is needed: the answer is an arbitrary one (a different
number per variable, multipliers that depend only on the contents of the
constraint they belong to), so what the library reports can be traced to the
variable or constraint it came from.  Conventions are MOSEK's: for a
maximisation every multiplier of a >= row and every bar multiplier is
non-positive.
"""
from .base import *
from .lpspy import read_task, Prog, INF
import contextlib
import math
import numpy as np

R2 = math.sqrt(2)


class SDPData:
    """LPData plus, per row, the bar coefficients (dense symmetric matrices)"""


def read(t):
    d = read_task(t)
    nb = t.getnumbarvar()
    d2 = SDPData()
    for k in ("sense", "c", "cfix", "A", "lc", "uc", "lx", "ux"):
        setattr(d2, k, getattr(d, k))
    d2.dims = [t.getdimbarvarj(j) for j in range(nb)]
    d2.barc = [np.zeros((n, n)) for n in d2.dims]
    d2.bara = [dict() for _ in range(len(d2.lc))]
    if nb:
        n, J, K, L, V = t.getbarcblocktriplet()
        for j, k, l, v in zip(J[:n], K[:n], L[:n], V[:n]):
            d2.barc[j][k, l] += v
            if k != l:
                d2.barc[j][l, k] += v
        n, I, J, K, L, V = t.getbarablocktriplet()
        for i, j, k, l, v in zip(I[:n], J[:n], K[:n], L[:n], V[:n]):
            M = d2.bara[i].setdefault(j, np.zeros((d2.dims[j],) * 2))
            M[k, l] += v
            if k != l:
                M[l, k] += v
    # affine conic constraints: rows of expressions in a cone
    d2.accs = []
    nafe = t.getnumafe()
    F = np.zeros((nafe, len(d2.c)))
    g = np.zeros(nafe)
    for i in range(nafe):
        k, sub, val = t.getafefrow(i)
        for j, v in zip(sub[:k], val[:k]):
            F[i, j] += v
        g[i] = t.getafeg(i)
        if nb and t.getafebarfnumrowentries(i):
            raise Skip("conic expression over matrix variables")
    import mosek
    for a in range(t.getnumacc()):
        dom = t.getaccdomain(a)
        ty = t.getdomaintype(dom)
        ix = np.asarray(t.getaccafeidxlist(a), dtype=int)
        b = np.asarray(t.getaccb(a), dtype=float)
        d2.accs.append((str(ty).split(".")[-1], F[ix], g[ix] - b))
    # fixed columns are constants
    d2.fixed = np.flatnonzero(d2.lx == d2.ux)
    if len(d2.fixed):
        v = d2.lx[d2.fixed]
        sh = d2.A[:, d2.fixed] @ v
        d2.lc = d2.lc - sh
        d2.uc = d2.uc - sh
        d2.cfix += d2.c[d2.fixed] @ v
        d2.accs = [(ty, F, g + F[:, d2.fixed] @ v) for ty, F, g in d2.accs]
    d2.free = np.array([j for j in range(len(d2.c)) if j not in set(d2.fixed)], dtype=int)
    return d2


def unsvec(v):
    """matrix from MOSEK's scaled vectorisation; v may carry trailing axes"""
    m = len(v)
    n = int((math.isqrt(8 * m + 1) - 1) // 2)
    M = np.zeros((n, n) + v.shape[1:])
    k = 0
    for j in range(n):
        for i in range(j, n):
            M[i, j] = M[j, i] = v[k] if i == j else v[k] / R2
            k += 1
    return M


def svec(M):
    n = len(M)
    return np.array([M[i, j] * (1 if i == j else R2) for j in range(n) for i in range(j, n)])


# ---------------------------------------------------------------- normal form
class Form:
    """maximise c.x + c0 s.t. r.x >= h, e.x = f, G0 + sum x_i G_i >= 0, over the columns/rows `size`"""


def as_primal(d):
    n = len(d.c)
    f = Form()
    s = 1.0 if d.sense == "max" else -1.0
    f.kind = "primal"
    f.size = n
    f.c, f.c0 = s * d.c.copy(), s * d.cfix
    f.c[d.fixed] = 0
    A = d.A.copy()
    A[:, d.fixed] = 0
    f.ge, f.eq = [], []
    f.rowkind = []
    if any(np.any(b) for b in d.barc):
        return None
    u = []
    for j, m in enumerate(d.dims):
        for k in range(m):
            for l in range(k + 1):
                u.append((j, k, l))
    tie = [i for i in range(len(d.lc)) if d.bara[i]]
    for i in range(len(d.lc)):
        if i in tie:
            continue
        if d.lc[i] == d.uc[i]:
            f.eq.append((A[i], d.lc[i]))
        else:
            if d.lc[i] > -INF:
                f.ge.append((A[i], d.lc[i]))
            if d.uc[i] < INF:
                f.ge.append((-A[i], -d.uc[i]))
    E = np.eye(n)
    for j in d.free:
        if d.lx[j] > -INF:
            f.ge.append((E[j], d.lx[j]))
        if d.ux[j] < INF:
            f.ge.append((-E[j], -d.ux[j]))
    f.blocks = []
    if u:
        B = np.zeros((len(tie), len(u)))
        for r, i in enumerate(tie):
            if d.lc[i] != d.uc[i]:
                return None
            for q, (j, k, l) in enumerate(u):
                M = d.bara[i].get(j)
                if M is not None:
                    B[r, q] = M[k, l] * (1 if k == l else 2)
        # each entry of the matrix variables is an affine function of x
        if len(tie) < len(u):
            return None
        P = np.linalg.pinv(B)
        if np.abs(P @ B - np.eye(len(u))).max() > 1e-7:
            return None
        rhs = np.array([d.lc[i] for i in tie])
        At = A[tie]
        U0, U = P @ rhs, -P @ At
        res0, res = rhs - B @ U0, -At - B @ U
        for r in range(len(tie)):
            if np.abs(res[r]).max(initial=0) > 1e-7 or abs(res0[r]) > 1e-7:
                f.eq.append((-res[r], res0[r]))
        for j, m in enumerate(d.dims):
            G0, G = np.zeros((m, m)), np.zeros((n, m, m))
            for q, (jj, k, l) in enumerate(u):
                if jj == j:
                    G0[k, l] = G0[l, k] = U0[q]
                    G[:, k, l] = G[:, l, k] = U[q]
            f.blocks.append((G0, G))
    for ty, F, g in d.accs:
        F = F.copy()
        F[:, d.fixed] = 0
        if ty == "svec_psd_cone":
            f.blocks.append((unsvec(g), np.moveaxis(unsvec(F), 2, 0)))
        elif ty == "rplus":
            f.ge += [(r, -h) for r, h in zip(F, g)]
        elif ty == "rminus":
            f.ge += [(-r, h) for r, h in zip(F, g)]
        elif ty == "rzero":
            f.eq += [(r, -h) for r, h in zip(F, g)]
        else:
            raise Skip("cone " + ty)
    return f


def as_dual(d):
    """the program whose conic dual the task is; variable i is minus the multiplier of row i"""
    if d.accs:
        return None
    f = Form()
    f.kind = "dual"
    m = len(d.lc)
    f.size = m
    s = 1.0 if d.sense == "min" else -1.0
    # min b.w + <C,Z> : row_i(w, Z) in [lo, up]  <->  max lo.y : y sign, b_j - A_j.y {>=,=,<=} 0, C - sum y_i A_i >= 0
    f.c = np.zeros(m)
    f.ge, f.eq = [], []
    E = np.eye(m)
    for i in range(m):
        lo, up = d.lc[i], d.uc[i]
        if lo == up:
            f.c[i] = lo
        elif lo > -INF and up == INF:
            f.c[i] = lo
            f.ge.append((s * E[i], 0.0))
        elif up < INF and lo == -INF:
            f.c[i] = up
            f.ge.append((-s * E[i], 0.0))
        else:
            return None
    for j in d.free:
        r, b = d.A[:, j], d.c[j]
        lo, up = d.lx[j], d.ux[j]
        if lo == -INF and up == INF:
            f.eq.append((r, b))
        elif lo == 0.0 and up == INF:
            f.ge.append((-s * r, -s * b))
        elif lo == -INF and up == 0.0:
            f.ge.append((s * r, s * b))
        else:
            return None
    f.blocks = []
    for j, n in enumerate(d.dims):
        G = np.zeros((m, n, n))
        for i in range(m):
            if j in d.bara[i]:
                G[i] = -s * d.bara[i][j]
        f.blocks.append((s * d.barc[j], G))
    # y -> x = -y; and for a maximisation min lo.y
    f.c = -f.c if s > 0 else f.c
    f.c0 = s * d.cfix
    f.ge = [(-r, h) for r, h in f.ge]
    f.eq = [(-r, h) for r, h in f.eq]
    f.blocks = [(a, -b) for a, b in f.blocks]
    return f


# ------------------------------------------------------------------- answers
def weights(c, G):
    """a number per variable that depends on its objective coefficient and matrix only"""
    n = len(c)
    w = np.sin(1.7 * np.asarray(c, dtype=float) + 0.3)
    if G is not None and len(G):
        m = G.shape[1]
        i = np.arange(m)
        R = np.cos(0.37 * (i[:, None] * i[None, :]) + 0.61 * (i[:, None] + i[None, :]) + 1)
        w = w + 0.8 * np.sin(np.einsum("ijk,jk->i", G, R))
    return w + 1.5


def mult_ge(r, h, w):
    """multiplier of r.x >= h: positive, invariant under positive scaling of the pair times the row"""
    k = max(np.abs(r).max(initial=0), abs(h))
    if k < 1e-12:
        return 0.0
    return (1 + 0.5 * math.sin(float(r @ w - 0.9 * h) / k)) / k


def mult_eq(r, h, w):
    """odd in the pair (r, h), so that multiplier times row is well defined"""
    k = max(np.abs(r).max(initial=0), abs(h))
    if k < 1e-12:
        return 0.0
    return float(r @ w - 0.9 * h) / k / k


def psd(n, seed):
    rs = np.random.RandomState(seed)
    B = rs.randint(-3, 4, (n, n)) / 4.0
    return B @ B.T + 0.25 * np.eye(n)


class Answer:
    pass


def answer(d, form, status, seed):
    a = Answer()
    rs = np.random.RandomState(seed)
    n, m = len(d.c), len(d.lc)
    a.status = status
    a.value = round(float(rs.uniform(-2, 2)), 3)
    # a different value for each variable of the stated program
    vals = np.linspace(0.11, 2.3, form.size) + 2.0 / max(form.size, 1) * rs.uniform(0, .3, form.size)
    rs.shuffle(vals)
    a.vals = vals
    w = weights(form.c, form.blocks[0][1] if form.blocks else None)
    a.w = w
    Zs = [psd(len(g0), seed + 7 * q) for q, (g0, _) in enumerate(form.blocks)]
    a.Z = Zs
    a.x = np.zeros(n)
    a.x[d.fixed] = d.lx[d.fixed]
    a.y = np.zeros(m)
    a.slc, a.suc = np.zeros(m), np.zeros(m)
    a.slx, a.sux = np.zeros(n), np.zeros(n)
    a.accdoty = []
    if form.kind == "dual":
        s = 1.0 if d.sense == "min" else -1.0
        a.y = -vals * 1.0
        a.slc = np.where(a.y > 0, a.y, 0) if s > 0 else np.where(a.y < 0, a.y, 0)
        a.suc = a.slc - a.y
        for j in d.free:
            r, b = d.A[:, j], d.c[j]           # r.x + b, over x = -y
            if d.lx[j] == -INF and d.ux[j] == INF:
                a.x[j] = mult_eq(r, -b, w)
            elif d.lx[j] == 0.0:
                a.x[j] = mult_ge(s * r, -s * b, w)
            else:
                a.x[j] = -mult_ge(-s * r, s * b, w)
        a.barx = Zs
        a.bars = [np.zeros_like(z) for z in Zs]
    else:
        s = 1.0 if d.sense == "min" else -1.0
        a.x[d.free] = vals[d.free]
        for i in range(m):
            r = d.A[i].copy()
            r[d.fixed] = 0
            if d.bara[i]:
                a.y[i] = rs.uniform(-1, 1)
                continue
            if d.lc[i] == d.uc[i]:
                a.y[i] = s * mult_eq(r, d.lc[i], w)
                a.slc[i], a.suc[i] = max(a.y[i], 0), max(-a.y[i], 0)
                if s < 0:
                    a.slc[i], a.suc[i] = -a.suc[i], -a.slc[i]
                continue
            if d.lc[i] > -INF:
                a.slc[i] = s * mult_ge(r, d.lc[i], w)
            if d.uc[i] < INF:
                a.suc[i] = s * mult_ge(-r, -d.uc[i], w)
            a.y[i] = a.slc[i] - a.suc[i]
        X = [g0 + np.tensordot(vals, g, 1) for g0, g in form.blocks]
        nb = len(d.dims)
        a.barx = X[:nb]
        a.bars = [s * z for z in Zs[:nb]]
        for ty, F, g in d.accs:
            if ty == "svec_psd_cone":
                a.accdoty += list(s * svec(Zs[nb]))
                nb += 1
            else:
                F = F.copy()
                F[:, d.fixed] = 0
                for r, h in zip(F, g):
                    a.accdoty.append(s * (mult_ge(r, -h, w) if ty == "rplus" else -mult_ge(-r, h, w) if ty == "rminus" else mult_eq(r, -h, w)))
    return a


@contextlib.contextmanager
def spy(status="feasible", seed=1):
    """status: feasible / infeasible / unbounded / unknown, of the stated (maximisation) program"""
    import mosek
    T = mosek.Task
    log = []
    saved = {}

    def put(name, f):
        saved[name] = getattr(T, name)
        setattr(T, name, f)

    def optimize(self, *a):
        d = read(self)
        forms = (as_dual, as_primal) if d.sense == "min" else (as_primal, as_dual)
        form = forms[0](d) or forms[1](d)
        if form is None:
            raise Skip("program in neither primal nor dual form")
        st = {"feasible": "optimal", "unknown": "unknown",
              "infeasible": "dual_infeas_cer" if form.kind == "dual" else "prim_infeas_cer",
              "unbounded": "prim_infeas_cer" if form.kind == "dual" else "dual_infeas_cer"}[status]
        a_ = answer(d, form, st, seed)
        log.append((d, form, a_))
        self._verif = a_
        return mosek.rescode.ok if status != "unknown" else mosek.rescode.trm_stall

    def prosta(self, *a):
        return {"optimal": mosek.prosta.prim_and_dual_feas, "prim_infeas_cer": mosek.prosta.prim_infeas, "dual_infeas_cer": mosek.prosta.dual_infeas, "unknown": mosek.prosta.unknown}[self._verif.status]

    def sl(get):
        def f(self, *a):
            v = np.asarray(get(self._verif), dtype=float)
            first, last, out = a[-3], a[-2], a[-1]
            for k in range(first, last):
                out[k - first] = v[k]
        return f

    def bar(get):
        def f(self, *a):
            first, last, out = a[1], a[2], a[-1]
            v = []
            for M in get(self._verif)[first:last]:
                n = len(M)
                v += [M[i, j] for j in range(n) for i in range(j, n)]
            for k, x in enumerate(v):
                out[k] = x
        return f

    def full(get):
        return lambda self, *a: list(get(self._verif))
    put("optimize", optimize)
    put("solutiondef", lambda self, st, *a: st == mosek.soltype.itr)
    put("solutionsummary", lambda self, *a: None)
    put("getsolsta", lambda self, *a: getattr(mosek.solsta, self._verif.status))
    put("getprosta", prosta)
    put("getprimalobj", lambda self, *a: self._verif.value)
    put("getdualobj", lambda self, *a: self._verif.value)
    for nm, g in (("getxx", lambda v: v.x), ("getslx", lambda v: v.slx), ("getsux", lambda v: v.sux), ("getslc", lambda v: v.slc), ("getsuc", lambda v: v.suc), ("gety", lambda v: v.y)):
        put(nm, full(g))
        put(nm + "slice", sl(g))
    put("getxcslice", sl(lambda v: np.zeros_like(v.y)))
    for nm, g in (("getbarxslice", lambda v: v.barx), ("getbarsslice", lambda v: v.bars)):
        put(nm, bar(g))

    def evaluateaccs(self, st, out):
        for k in range(len(out)):
            out[k] = 0.0
    put("evaluateaccs", evaluateaccs)

    def getaccdotys(self, st, out):
        for k, v in enumerate(self._verif.accdoty):
            out[k] = v
    put("getaccdotys", getaccdotys)
    try:
        yield log
    finally:
        for k, f in saved.items():
            setattr(T, k, f)


# ------------------------------------------------------------- specification
class SProg(Prog):
    """maximise c.x + c0 s.t. ge, eq, G0 + sum x_i G_i PSD over named variables"""

    def __init__(self, names, dim=0):
        super().__init__(names)
        self.c0 = 0.0
        self.dim = dim
        self.G0 = np.zeros((dim, dim))
        self.G = np.zeros((len(self.names), dim, dim))


def affine_hull(P):
    """x = T z + t for the solutions of P's equalities; None when there are none"""
    n = len(P.names)
    if not P.eq:
        return np.eye(n), np.zeros(n)
    A = np.array([r for r, _ in P.eq])
    b = np.array([h for _, h in P.eq])
    t, *_ = np.linalg.lstsq(A, b, rcond=None)
    if np.abs(A @ t - b).max() > 1e-7:
        return None
    _, s, V = np.linalg.svd(A)
    k = int((s > 1e-9).sum())
    return V[k:].T, t


def locate(form, a, x, names, extra=None):
    """column/row of the program for each reported variable"""
    col = {}
    used = {}
    for v, val in x.items():
        k = [i for i in range(form.size) if abs(a.vals[i] - val) < 1e-9]
        if not k:
            return None, f"the value reported for {v} ({val}) belongs to no variable of the program"
        if k[0] in used:
            return None, f"{v} and {used[k[0]]} are reported with the value of the same variable"
        col[v] = k[0]
        used[k[0]] = v
    return col, ""


def handed(form, col, P, defs):
    """the program over P's names: the one handed over, plus the definitions of the variables it does not contain"""
    Q = SProg(P.names, P.dim)
    m = np.full(form.size, -1)
    for v, k in col.items():
        m[k] = Q.ix[v]
    used = m >= 0

    def lift(r):
        o = np.zeros(len(Q.names))
        o[m[used]] = r[used]
        return o
    stray = [i for i in range(form.size) if not used[i] and (form.c[i] or any(r[i] for r, _ in form.ge + form.eq) or any(np.any(g[i]) for _, g in form.blocks))]
    if stray:
        return None, "the program has a variable that is not reported"
    Q.c, Q.c0 = lift(form.c), form.c0
    Q.ge = [(lift(r), h) for r, h in form.ge]
    Q.eq = [(lift(r), h) for r, h in form.eq]
    for v, (r, h) in defs.items():
        if v not in col:
            Q.eq.append((r, h))
    if len(form.blocks) > 1:
        raise Skip("several matrix variables")
    if form.blocks:
        g0, g = form.blocks[0]
        if len(g0) != P.dim:
            return None, f"the matrix variable has dimension {len(g0)} instead of {P.dim}"
        Q.G0 = g0
        for i in range(form.size):
            if used[i]:
                Q.G[m[i]] += g[i]
    elif P.dim:
        return None, "the program has no matrix variable"
    return Q, ""


def same(P, Q):
    from . import lpspy
    p, q = Prog(P.names), Prog(P.names)
    p.ge, p.eq, q.ge, q.eq = P.ge, P.eq, Q.ge, Q.eq
    m = lpspy.same(p, q)
    if m:
        return m
    h = affine_hull(P)
    if h is None:
        return ""
    T, t = h
    if np.abs((P.c - Q.c) @ T).max(initial=0) > 1e-7:
        return f"objective differs: stated {nz(P.c, P.names)}, handed over {nz(Q.c, P.names)}"
    if abs(P.c0 + P.c @ t - Q.c0 - Q.c @ t) > 1e-7:
        return f"the constant of the objective differs: stated {P.c0 + P.c @ t}, handed over {Q.c0 + Q.c @ t}"
    if P.dim:
        D = np.tensordot(T.T, P.G - Q.G, 1)
        D0 = P.G0 - Q.G0 + np.tensordot(t, P.G - Q.G, 1)
        if np.abs(D).max(initial=0) > 1e-7 or np.abs(D0).max(initial=0) > 1e-7:
            bad = np.argwhere((np.abs(D).max(axis=0, initial=0) > 1e-7) | (np.abs(D0) > 1e-7))[0]
            i, j = map(int, bad)
            return (f"entry ({i}, {j}) of the moment matrix differs: stated {nz(P.G[:, i, j], P.names)} + {P.G0[i, j]:.6g}, "
                    f"handed over {nz(Q.G[:, i, j], P.names)} + {Q.G0[i, j]:.6g}")
    return ""


def nz(c, names):
    return {n: round(float(v), 6) for n, v in zip(names, c) if abs(v) > 1e-9}
