"""C18: an exported file, read back by its format, is the program that would be solved."""
from .base import *
from . import scen, prog, lpspy, sdpspy, hist, c09, c11, c12
from .lpspy import Prog, INF
import numpy as np
import os
import re
import shutil
import tempfile
import warnings
from itertools import permutations


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c18")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ------------------------------------------------------------------ linear programs
def read_lp(path):
    """the program of a .lp or .mps file, and the names of its variables"""
    import mosek
    with mosek.Task() as t:
        try:
            t.readdata(path)
        except mosek.Error as e:
            with open(path) as f:
                text = f.read()
            raise Broken("the file is valid", dict(error=str(e), file=text[-1500:]))
        d = lpspy.read_task(t)
        if path.endswith(".lp"):
            d.cfix = lp_constant(path)
        return d, [t.getvarname(j) for j in range(t.getnumvar())]


def lp_constant(path):
    """the constant of the objective; MOSEK's reader loses its sign"""
    with open(path) as f:
        text = re.sub(r"\\\\.*", "", f.read())
    o = re.split(r"(?i)subject\s+to|such\s+that|\bst\b|\bs\.t\.", re.split(r"(?i)\bmax\w*|\bmin\w*", text, maxsplit=1)[1], maxsplit=1)[0]
    o = re.sub(r"^\s*\w+\s*:", "", o)
    tok = re.findall(r"[-+]|[\d.]+(?:[eE][-+]?\d+)?|[A-Za-z_]\w*", o)
    total, sign, i = 0.0, 1, 0
    while i < len(tok):
        t = tok[i]
        if t in "+-":
            sign *= -1 if t == "-" else 1
        elif t[0].isdigit() or t[0] == ".":
            if i + 1 < len(tok) and tok[i + 1][0].isalpha():
                i += 1
            else:
                total += sign * float(t)
            sign = 1
        else:
            sign = 1
        i += 1
    return total


def file_prog(path, names, dnn):
    """the file as a maximisation over names, where variable i of the program is x<i> or goes by its own name"""
    d, vs = read_lp(path)
    ix = {v: i for i, v in enumerate(names)}
    ix.update({f"x{i}": i for i, v in enumerate(names) if f"x{i}" not in names})
    need(set(vs) <= set(ix), "variables of the file are variables of the program", file=vs, program=names)
    pos = [ix[v] for v in vs]
    need(len(set(pos)) == len(pos), "each variable appears once", file=vs)
    Q = Prog(names)
    F = lpspy.as_primal(d, vs)

    def lift(r):
        x = np.zeros(len(names))
        x[pos] = r
        return x
    Q.c = lift(F.c)
    Q.ge = [(lift(r), h) for r, h in F.ge]
    Q.eq = [(lift(r), h) for r, h in F.eq]
    Q.c0 = d.cfix * (1 if d.sense == "max" else -1)
    return Q, d.sense, [v for i, v in enumerate(names) if i not in pos]


def compare(P, Q, known, absent, dnn):
    """P: stated; Q: file, in which known values are substituted and variables without constraints may be left out"""
    for v in absent:
        if dnn and v not in known:
            Q.add_ge({v: 1})
    for k, v in known.items():
        Q.add_eq({k: 1}, v)
        if dnn:
            Q.add_ge({k: 1})
    p, q = sdpspy.SProg(P.names), sdpspy.SProg(P.names)
    for x, y in ((p, P), (q, Q)):
        x.ge, x.eq, x.c, x.c0 = y.ge, y.eq, y.c, getattr(y, "c0", 0.0)
    m = sdpspy.same(p, q).replace("handed over", "in the file")
    need(not m, m)


def gen_dict(rng, tier):
    while True:
        c = c09.rand_lp(rng, rng.choice([4, 6, 8]))
        c["relax"] = ""
        c["dnn"] = True
        ok = all(c["known"].get(v, b) >= b for v, b in c["lo"].items()) and all(c["known"].get(v, b) <= b for v, b in c["up"].items())
        if not ok:
            continue
        if rng.random() < .3:  # numbers with many digits, large and small
            for r in c["ineq"] + c["eq"] + [c["obj"]]:
                for k in r:
                    r[k] = r[k] * rng.choice([1, 1 / 3, 1.0000049, 12.3456])
            c["known"] = {k: v if k == "1" else v * rng.choice([1, 1, 1 / 3]) for k, v in c["known"].items()}
            c["lo"] = {k: v for k, v in c["lo"].items() if k not in c["known"]}
            c["up"] = {k: v for k, v in c["up"].items() if k not in c["known"]}
        if rng.random() < .1:
            for v in rng.sample(c["names"], 1):
                c["up"][v] = -rng.choice([.5, 1])
                c["known"].pop(v, None)
                if rng.random() < .5:
                    c["lo"][v] = c["up"][v] - 1
                else:
                    c["lo"].pop(v, None)
        for fmt in ("lp", "mps", "lp_to_mps"):
            yield dict(c, fmt=fmt, name=rng.choice(["p", "out/p", "my.dir/p", "a b"]))


def run_dict(c):
    from inflation.lp import writer_utils as W
    P = c09.spec(c)
    a = c09.args_of(c, "dict")
    with scratch() as d, prog.quiet():
        ext = "lp" if c["fmt"] == "lp" else "mps"
        path = os.path.join(d, c["name"] + "." + ext)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        b = repr(a)
        {"lp": W.write_to_lp, "mps": W.write_to_mps, "lp_to_mps": W.lp_to_mps}[c["fmt"]](a, path)
        need(repr(a) == b, "the arguments are left as they were")
        Q, sense, absent = file_prog(path, c["names"], True)
    need(sense == "max", "the program is a maximisation", sense=sense)
    if c["fmt"] == "lp_to_mps":
        Q.c0 = P.row(c["obj"]) @ P.row(c["known"])  # converted by MOSEK, see lp_constant
    compare(P, Q, c["known"], absent, True)
    return "trivial" if not (c["ineq"] or c["eq"]) else None


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 60):
        kw = rng.choice([{}, {}, {"include_all_outcomes": True}, {"supports_problem": True}, {"default_non_negative": False}])
        for _ in range(5):
            ops = hist.gen_ops(rng, rng.randint(2, 6), "lp", bool(kw.get("supports_problem")))
            yield dict(P=P, kw=kw, seed=rng.randrange(10**6), ops=ops, name=rng.choice(["p.lp", "p.mps", "o.d/p.lp", "p", "o.d/p", "./p.mps", "../q/p"]))


class cd:
    def __init__(self, d):
        self.d = d

    def __enter__(self):
        self.o = os.getcwd()
        os.chdir(self.d)

    def __exit__(self, *a):
        os.chdir(self.o)


def setup(rng_seed, s, c, mod):
    supports = bool(c["kw"].get("supports_problem"))
    ctx = mod.context(s, c["P"], c["seed"], supports)
    if len(ctx["names"]) < 2:
        raise Skip("no variables")
    try:
        return hist.run_ops(s, c["ops"], ctx, lambda *a: None)
    except AssertionError as e:
        if "contradicts" in str(e):
            raise Skip("contradictory settings")
        raise


def clear(s):
    with prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s.reset("all")


def out_path(name, default):
    return name if os.path.basename(name).count(".") else name + "." + default


def run_lp(c):
    s = prog.lp(c["P"], **c["kw"])
    clear(s)
    st, trace = setup(0, s, c, c11)
    a = s._prepare_solver_arguments(separate_bounds=True)
    names = list(a["variables"])
    dnn = c["kw"].get("default_non_negative", True)
    with scratch() as d, prog.quiet():
        os.makedirs(os.path.join(d, "w"))
        os.makedirs(os.path.join(d, "q"))
        os.makedirs(os.path.join(d, "w", "o.d"))
        with cd(os.path.join(d, "w")):
            s.write_to_file(c["name"])
            f = out_path(c["name"], "lp")
            need(os.path.isfile(f), "the file is where it was asked for", name=c["name"])
            Q, sense, absent = file_prog(f, names, dnn)
    P = Prog(names)
    P.c = P.row(a["objective"])
    for r in a["inequalities"]:
        P.add_ge(r)
    for r in a["equalities"]:
        P.add_eq(r)
    for k, (x, b) in a["semiknown_vars"].items():
        P.eq.append((P.row({k: 1}) - x * P.row({b: 1}), 0.0))
    for k, v in a["known_vars"].items():
        P.add_eq({k: 1}, v)
    for k, v in a["lower_bounds"].items():
        P.add_ge({k: 1}, v)
    for k, v in a["upper_bounds"].items():
        P.add_ge({k: -1}, -v)
    if dnn:
        for k in names:
            if k not in a["lower_bounds"]:
                P.add_ge({k: 1})
    if sense == "min":
        Q.c, Q.c0 = -Q.c, -Q.c0  # either way of writing it, the direction and the coefficients agree
        need(True, "")
    compare(P, Q, a["known_vars"], absent, dnn)
    return "trivial" if all(x is None for x in st.values()) else None


# ------------------------------------------------------------------ semidefinite programs
def gen_sdp(rng, tier, fmt="dat-s", direction="max"):
    for P in prog.stream_sdp(rng, 8):
        kw = rng.choice([{}, {}, {"include_all_outcomes": True}, {"supports_problem": True}])
        cols = "npa2" if scen.nops(P) <= 5 and rng.random() < .3 else rng.choice(["npa1", "local1"])
        for _ in range(8):
            ops = hist.gen_ops(rng, rng.randint(2, 6), "sdp", bool(kw.get("supports_problem")))
            name = rng.choice([f"p.{fmt}"] * 4 + [f"o.d/p.{fmt}"] + (["p", "o.d/p", "../q/p"] if fmt == "dat-s" else []))
            yield dict(P=P, kw=kw, cols=cols, seed=rng.randrange(10**6), ops=ops, name=name)


def parse_sdpa(path):
    """c, F (block -> (var -> matrix)), sizes;  min c.x s.t. sum F_i x_i - F_0 >= 0"""
    with open(path) as f:
        lines = f.read().split("\n")
    comments = []
    while lines and lines[0][:1] in ('"', "*"):
        comments.append(lines.pop(0))
    clean = lambda s: [float(x) for x in re.sub(r"[,(){}]", " ", s).split()]
    lead = lambda s: int(re.match(r"\s*(\d+)", s).group(1))
    try:
        n, nb = lead(lines[0]), lead(lines[1])
        sizes = [int(x) for x in clean(lines[2].split("=")[0])]
        cost = clean(lines[3])
        need(len(sizes) == nb, "as many block sizes as blocks", sizes=sizes, blocks=nb)
        need(len(cost) == n, "as many objective coefficients as variables", coefficients=len(cost), variables=n)
        F = [np.zeros((n + 1, abs(k), abs(k))) for k in sizes]
        seen = set()
        for ln in lines[4:]:
            if not ln.strip():
                continue
            v, b, i, j, x = re.sub(r"[,(){}]", " ", ln).split()
            v, b, i, j, x = int(v), int(b), int(i), int(j), float(x)
            need(0 <= v <= n, "entries are of declared variables", line=ln, variables=n)
            need(1 <= b <= nb, "entries are of declared blocks", line=ln, blocks=nb)
            need(1 <= i <= j <= abs(sizes[b - 1]), "entries are of the upper triangle of their block", line=ln, sizes=sizes)
            need(sizes[b - 1] > 0 or i == j, "diagonal blocks have diagonal entries", line=ln)
            need((v, b, i, j) not in seen, "each entry is given once", line=ln)
            seen.add((v, b, i, j))
            F[b - 1][v, i - 1, j - 1] = F[b - 1][v, j - 1, i - 1] = x
    except (ValueError, AttributeError, IndexError) as e:
        raise Broken("the file is valid", dict(error=repr(e), head=lines[:6]))
    need(not any(k == 0 for k in sizes), "blocks are not empty", sizes=sizes)
    return np.array(cost), F, sizes, comments


def stated_sdp(s):
    a, vs = c12.described(s)
    P = c12.as_prog(a, vs)
    n = s.n_columns
    G = {k: np.asarray(m.todense()) for k, m in a["mask_matrices"].items()}
    return a, vs, P, G


def run_sdpa(c):
    s = prog.sdp(c["P"], c["cols"], **c["kw"])
    clear(s)
    st, trace = setup(0, s, c, c12)
    with scratch() as d, prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for x in ("w/o.d", "q"):
            os.makedirs(os.path.join(d, x))
        with cd(os.path.join(d, "w")):
            s.write_to_file(c["name"])
            f = out_path(c["name"], "dat-s")
            need(os.path.isfile(f), "the file is where it was asked for", name=c["name"])
            cost, F, sizes, comments = parse_sdpa(f)
    a, vs, P, G = stated_sdp(s)
    N = s.n_columns
    known, semi = a["known_vars"], a["semiknown_vars"]
    need(sizes[0] == N, "the first block is the moment matrix", sizes=sizes, columns=N)
    # variables of the file, from the moment matrix
    var = {}
    back = {}
    at = np.full((N, N), None, dtype=object)
    for k, m in G.items():
        for i, j in np.argwhere(m):
            if i <= j:
                at[i, j] = k
    for i in range(N):
        for j in range(i, N):
            m = at[i, j]
            x = F[0][:, i, j]
            vs_here = [int(v) for v in np.flatnonzero(x[1:]) + 1]
            k, co, const = m, 1.0, 0.0
            if m is None:
                k, co = None, 0.0
            elif m in known:
                k, co, const = None, 0.0, float(known[m])
            elif m in semi:
                co, k = semi[m]
                co = float(co)
                if k in known:
                    k, co, const = None, 0.0, co * float(known[k])
            w = dict(entry=(i + 1, j + 1), moment=m, file={int(v): float(x[v]) for v in np.flatnonzero(x)})
            need(abs(-x[0] - const) < 1e-9, "the constant of an entry of the moment matrix", want=const, got=-x[0], **w)
            if k is None or abs(co) < 1e-12:
                need(not vs_here, "a known entry has no variables", **w)
                continue
            need(len(vs_here) == 1 and abs(x[vs_here[0]] - co) < 1e-9, "an entry is its multiple of one variable", want=co, **w)
            v = vs_here[0]
            need(var.setdefault(k, v) == v and back.setdefault(v, k) == k, "variables of the file are moments", **w)
    rest_f = [v for v in range(1, len(cost) + 1) if v not in back]
    used = lambda v: any(np.any(B[v]) for B in F) or cost[v - 1] != 0
    rest_f = [v for v in rest_f if used(v)]
    rest_m = [m for m in vs if m not in var and m not in known and m not in semi]
    rest_m = [m for m in rest_m if P.c[P.ix[m]] or any(r[P.ix[m]] for r, _ in P.ge + P.eq)]
    need(len(rest_f) <= len(rest_m), "the file has no variables of its own", variables=len(rest_f), moments=rest_m)
    best = ""
    for perm in list(permutations(rest_m, len(rest_f)))[:500]:
        b2 = dict(back, **dict(zip(rest_f, perm)))
        m = compare_sdpa(P, vs, known, semi, b2, cost, F)
        if not m:
            return "trivial" if all(x is None for x in st.values()) else None
        best = best or m
    need(False, f"after {trace}: {best}")


def compare_sdpa(P, vs, known, semi, back, cost, F):
    Q = sdpspy.SProg(vs)
    p = sdpspy.SProg(vs)
    p.ge, p.eq, p.c = P.ge, P.eq, P.c
    E = np.zeros((len(cost), len(vs)))
    for v, m in back.items():
        E[v - 1, Q.ix[m]] = 1
    Q.c = cost @ E
    for k, v in known.items():
        Q.add_eq({k: 1}, v)
    for k, (co, x) in semi.items():
        Q.eq.append((Q.row({k: 1}) - co * Q.row({x: 1}), 0.0))
    for B in F[1:]:
        if np.any(B - np.array([np.diag(np.diag(b)) for b in B])):
            return "a block other than the moment matrix is not diagonal"
        for i in range(B.shape[1]):
            if np.any(B[:, i, i]):
                Q.ge.append((B[1:, i, i] @ E, B[0, i, i]))
    msgs = []
    h = sdpspy.affine_hull(p)
    for sign in (1, -1):  # the direction is looked at separately
        Q.c = sign * (cost @ E)
        if h is not None:
            p.c0, Q.c0 = 0, float((p.c - Q.c) @ h[1])
        m = sdpspy.same(p, Q).replace("handed over", "in the file")
        if not m:
            return ""
        msgs.append(m)
    return msgs[0]


def written(c):
    """the relaxation with its settings, and what reading the file gives"""
    s = prog.sdp(c["P"], c["cols"], **c["kw"])
    clear(s)
    st, trace = setup(0, s, c, c12)
    return s, st, trace


def matrix_of(G, N):
    at = np.full((N, N), None, dtype=object)
    for k, m in G.items():
        for i, j in np.argwhere(m):
            at[i, j] = k
    return at


def run_mat(c):
    from scipy.io import loadmat
    s, st, trace = written(c)
    with scratch() as d, prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = os.path.join(d, "p.mat")
        s.write_to_file(f)
        M = loadmat(f)
    a, vs, P, G = stated_sdp(s)
    name = {int(np.ravel(i)[0]): str(np.ravel(n)[0]) for i, n in M["moments_idx2name"]}
    need(len(name) == len(M["moments_idx2name"]) and len(set(name.values())) == len(name), "moments have one index and one name each")
    need(min(name) >= 1, "indices start at 1", least=min(name))
    z = {i: n for i, n in name.items() if n not in vs}
    need(all(n == "0" for n in z.values()) or not z, "the moments of the file are those of the program", extra=z)
    pairs = lambda k: [(int(i), float(x)) for i, x in np.reshape(M[k], (-1, 2))]
    need(all(i in name for k in ("objective", "known_moments", "moment_lowerbounds", "moment_upperbounds") for i, _ in pairs(k)), "every index has a name")
    Q = Prog(vs)
    at = matrix_of(G, s.n_columns)
    mm = M["momentmatrix"]
    for i in range(s.n_columns):
        for j in range(s.n_columns):
            n = name.get(int(mm[i, j]))
            need((n if n != "0" else None) == (at[i, j] if at[i, j] != "0" else None), "an entry of the moment matrix", entry=(i, j), want=at[i, j], got=n)
    skip = {i for i, n in z.items()}
    row = lambda ps: {name[i]: sum(x for k, x in ps if k == i) for i, _ in ps if i not in skip}
    Q.c = Q.row(row(pairs("objective")))
    for i, x in pairs("known_moments"):
        if i in skip:
            need(x == 0, "the zero moment is zero", value=x)
        else:
            Q.add_eq({name[i]: 1}, x)
    if "constant_term" in vs:
        Q.add_eq({"constant_term": 1}, 1)
    for i, x, k in np.reshape(M["semiknown_moments"], (-1, 3)):
        Q.eq.append((Q.row({name[int(i)]: 1}) - (float(x) * Q.row({name[int(k)]: 1}) if int(k) not in skip else 0), 0.0))
    for i, x in pairs("moment_lowerbounds"):
        if i not in skip:
            Q.add_ge({name[i]: 1}, x)
    for i, x in pairs("moment_upperbounds"):
        if i not in skip:
            Q.add_ge({name[i]: -1}, -x)
    for key, add in (("moment_equalities", Q.add_eq), ("moment_inequalities", Q.add_ge)):
        for e in np.ravel(M[key]):
            e = e[0, 0] if getattr(e, "shape", ()) == (1, 1) else e
            add(row(list(zip(map(int, np.ravel(e["moments"])), map(float, np.ravel(e["coeffs"]))))))
    compare(P, Q, {}, [], False)
    return "trivial" if all(x is None for x in st.values()) else None


def plain(n):
    return n.replace(", ", ";").replace(",", ";").replace(" ", "")


def parse_expr(text, names):
    """terms of a linear expression over the names"""
    t = plain(text)
    out = {}
    byname = sorted(((plain(n), n) for n in names), key=lambda x: -len(x[0]))
    i = 0
    while i < len(t):
        sign = 1.0
        while t[i] in "+-":
            sign *= -1 if t[i] == "-" else 1
            i += 1
        for p, n in byname:
            if t.startswith(p, i) and t[i + len(p):i + len(p) + 1] in ("", "+", "-") and p not in "01":
                out[n] = out.get(n, 0) + sign
                i += len(p)
                break
        else:
            m = re.match(r"\d+\.?\d*(?:[eE][-+]?\d+)?", t[i:])
            need(m, "the expression can be read", expression=text, at=t[i:])
            i += m.end()
            x = sign * float(m.group())
            if t[i:i + 1] != "*":
                out["1"] = out.get("1", 0) + x
                continue
            i += 1
            for p, n in byname:
                if t.startswith(p, i) and t[i + len(p):i + len(p) + 1] in ("", "+", "-"):
                    out[n] = out.get(n, 0) + x
                    i += len(p)
                    break
            else:
                need(False, "the expression is over moments", expression=text, at=t[i:])
    return out


def run_csv(c):
    s, st, trace = written(c)
    with scratch() as d, prog.quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f = os.path.join(d, "p.csv")
        s.write_to_file(f)
        with open(f) as h:
            lines = h.read().split("\n")
    a, vs, P, G = stated_sdp(s)
    known, semi = a["known_vars"], a["semiknown_vars"]
    N = s.n_columns
    Q = Prog(vs)
    Q.c0 = 0.0
    need(lines[0].startswith("Objective:"), "the objective comes first", line=lines[0])
    Q.c = Q.row(parse_expr(lines[0].split(":", 1)[1].strip(), vs))
    at = matrix_of(G, N)
    num = re.compile(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?$")
    for i in range(N):
        cells = lines[1 + i].split(",")
        need(len(cells) == N, "a row of the moment matrix has an entry per column", row=i, cells=len(cells), columns=N)
        for j in range(i, N):
            m = at[i, j]
            k, co, const = m, 1.0, 0.0
            if m is None or m in known:
                k, const = None, float(known[m]) if m else 0.0
            elif m in semi:
                co, k = float(semi[m][0]), semi[m][1]
            w = dict(entry=(i, j), moment=m, cell=cells[j])
            if k is None:
                need(num.match(cells[j]) and abs(float(cells[j]) - const) < 1e-9, "a known entry is its value", want=const, **w)
            else:
                e = parse_expr(cells[j], vs) if cells[j] != plain(k) else {k: 1.0}
                want = {k: co} if abs(co) > 1e-12 else {}
                need({x: y for x, y in e.items() if y} == {x: y for x, y in e.items() if x in want} and all(abs(e.get(x, 0) - y) < 1e-9 for x, y in want.items()), "an entry of the moment matrix", want=want, **w)
    i = lines.index("Bounds:") + 2
    while lines[i].strip():
        parts = lines[i].rsplit(",", 2)
        n = [v for v in vs if plain(v) == plain(parts[0])]
        need(len(n) == 1 or plain(parts[0]) == "0", "bounds are of moments", line=lines[i])
        for x, sgn in zip(parts[1:], (1, -1)):
            if n and x != "None":
                Q.add_ge({n[0]: sgn}, sgn * float(re.sub(r"np\.float64\((.*)\)", r"\1", x)))
        i += 1
    part = Q.add_eq
    for ln in lines[i:]:
        if ln.startswith("Equalities"):
            part = Q.add_eq
        elif ln.startswith("Inequalities"):
            part = Q.add_ge
        elif ln.strip():
            part(parse_expr(ln, vs))
    for k, v in known.items():
        Q.add_eq({k: 1}, v)
    for k, (co, x) in semi.items():
        Q.eq.append((Q.row({k: 1}) - co * Q.row({x: 1}), 0.0))
    compare(P, Q, {}, [], False)
    return "trivial" if all(x is None for x in st.values()) else None


def gen_direction(rng, tier):
    yield dict(P={"dag": {"h": ["A", "B"]}, "outcomes_per_party": [2, 2], "settings_per_party": [2, 2]}, cols="npa1")


def run_direction(c):
    s = prog.new_sdp(c["P"], c["cols"])
    Driver = hist.Driver
    n = [str(m) for m in s.moments if m.is_atomic and m.n_operators == 2 and m.is_knowable][0]
    Driver.call(None, s, "set_objective", {n: 1.0}, "max")
    with scratch() as d, prog.quiet():
        s.write_to_file(os.path.join(d, "p.dat-s"))
        cost, F, sizes, _ = parse_sdpa(os.path.join(d, "p.dat-s"))
    need(sorted(cost)[0] == -1 and not any(cost > 0), "a .dat-s file is minimised, so a quantity to maximise is written negated", objective={n: 1}, file=[x for x in cost if x])


GROUPS = {"dict": (gen_dict, run_dict), "lp": (gen_lp, run_lp), "sdpa": (gen_sdp, run_sdpa),
          "mat": (lambda rng, tier: gen_sdp(rng, tier, "mat"), run_mat), "csv": (lambda rng, tier: gen_sdp(rng, tier, "csv"), run_csv),
          "direction": (gen_direction, run_direction)}
WEIGHTS = {"lp": 1.5, "sdpa": 2}
