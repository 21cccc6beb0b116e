"""C03: knowable, do-conditional and non-negative moments are recognised exactly."""
from .base import *
from . import scen, prog
from .ref import Ref, trace_class
import numpy as np


# ---------------------------------------------------------------- kernels
def gen_kernel(rng, tier):
    from itertools import product
    # exhaustive: two operators, two sources, small values
    for ns in (1, 2):
        ops = [(p,) + c + (0, 0) for p in (1, 2) for c in product(range(3), repeat=ns)]
        for k in (0, 1, 2):
            yield dict(ns=ns, mons=[list(map(list, m)) for m in product(ops, repeat=k)])
    while True:
        ns = rng.randint(1, 4)
        mons = []
        for _ in range(40):
            n = rng.randint(1, 6)
            hi = rng.choice([1, 1, 2, 3])
            mons.append([[rng.randint(1, 4)] + [rng.randint(0, hi) for _ in range(ns)] + [rng.randint(0, 2), rng.randint(0, 2)] for _ in range(n)])
            if rng.random() < .6:
                ps = rng.sample(range(1, 8), n)
                cs = [rng.randint(1, 3) for _ in range(ns)]
                m = [[p] + [c * rng.randint(0, 1) for c in cs] + [rng.randint(0, 2), rng.randint(0, 2)] for p in ps]
                if rng.random() < .5:
                    i, s = rng.randrange(n), rng.randrange(ns)
                    m[i][1 + s] = rng.randint(0, 3)
                mons.append(m)
        yield dict(ns=ns, mons=mons)


def one_copy(m):
    return all(len({o[s] for o in m} - {0}) <= 1 for s in range(1, len(m[0]) - 2)) if m else True


def comps(m):
    left, out = list(range(len(m))), []
    while left:
        c = {left[0]}
        while True:
            d = {j for j in left if j not in c and any(a == b and a for i in c for a, b in zip(m[i][1:-2], m[j][1:-2]))}
            if not d:
                break
            c |= d
        out.append(sorted(c))
        left = [x for x in left if x not in c]
    return out


def physical(m, sandwich):
    for p in {o[0] for o in m}:
        w = [o for o in m if o[0] == p]
        for c in comps(w):
            f = [w[i] for i in c]
            while sandwich and f and f[0] == f[-1]:
                f = f[1:-1]
            if len(f) > 1:
                return False
    return True


def run_kernel(c):
    from inflation.sdp.fast_npa import nb_is_knowable
    from inflation.lp.numbafied import nb_is_do_conditional
    for m in c["mons"]:
        a = np.array(m, dtype=np.uint8).reshape((-1, c["ns"] + 3))
        b = a.copy()
        kn = len({o[0] for o in m}) == len(m) and one_copy(m)
        need(bool(nb_is_knowable(a)) == kn, "at most one operator per party and one copy per source", monomial=m)
        need(bool(nb_is_do_conditional(a)) == one_copy(m), "intervention probability iff at most one copy of each source", monomial=m)
        need((a == b).all(), "argument unchanged")


def gen_phys(rng, tier):
    while True:
        ns = rng.randint(1, 2)
        mons = []
        for _ in range(30):
            pool = [[rng.randint(1, 2)] + [rng.randint(1, 2) for _ in range(ns)] + [rng.randint(0, 1), rng.choice([0, 0, 1, 2])] for _ in range(rng.randint(1, 3))]
            w = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
            if rng.random() < .5:
                w = w + w[:-1][::-1]
                if rng.random() < .5:
                    # almost a sandwich
                    i, k = rng.randrange(len(w)), rng.randrange(1, ns + 3)
                    w[i] = list(w[i])
                    w[i][k] = rng.choice([x for x in (0, 1, 2) if x != w[i][k] and (x or k > ns)])
            mons.append(w)
        yield dict(mons=mons)


def run_phys(c):
    from inflation.sdp.fast_npa import nb_is_physical
    for m in c["mons"]:
        a = np.array(m, dtype=np.uint8)
        for s in (True, False):
            need(bool(nb_is_physical(a.copy(), sandwich_positivity=s)) == physical(m, s), "non-negative iff every piece of every party is a sandwiched projector", monomial=m, sandwich=s)
        need(bool(nb_is_physical(a)) == physical(m, True), "sandwiches are considered by default", monomial=m)


# ------------------------------------------------------- atoms of programs
def words(rng, r, n):
    """readable events, near misses, and arbitrary products"""
    ops = r.operators()
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .6:
            cs = [rng.randint(1, l) for l in r.levels]
            a = [rng.randrange(o) for o in r.out]
            x = [rng.randrange(p) for p in r.priv]
            S = {p for p in range(r.nparties) if rng.random() < .7} or {rng.randrange(r.nparties)}
            if rng.random() < .7:
                for _ in range(r.nparties):
                    S |= {q for p in S for q in r.parents[p]}
            w = []
            for p in S:
                st = (x[p],) + tuple(a[q] for q in r.parents[p])
                w.append((p + 1,) + tuple(cs[s] if r.past[p][s] else 0 for s in range(r.ns)) + (r.eff[p].index(st), a[p]))
            if k < .2:
                i = rng.randrange(len(w))
                alt = [o for o in ops if o[0] == w[i][0]]
                w[i] = rng.choice(alt)
            rng.shuffle(w)
        else:
            w = [rng.choice(ops) for _ in range(rng.randint(1, 3))]
        out.append(w)
    return out


def gen_atoms(rng, tier):
    for P in scen.stream(rng, 60):
        yield dict(P=P, seed=rng.randrange(10**6), n=12)


def rect(r, m):
    return sorted([o[0], r.eff[o[0] - 1][o[-2]][0], o[-1]] for o in m)


def check_atom(r, a, where):
    m = [tuple(int(x) for x in o) for o in a.as_2d_array]
    if a.is_one or a.is_zero:
        need(bool(a.is_knowable) and bool(a.is_do_conditional), f"the unit and zero moments are known {where}")
        return
    need(bool(a.is_do_conditional) == r.one_copy(m), f"intervention probability iff at most one copy of each source {where}", moment=m)
    need(bool(a.is_knowable) == r.knowable(m), f"readable from the distribution iff closed event of one copy {where}", moment=m, got=a.is_knowable)
    com = all(r.commute(x, y) for x in m for y in m)
    need(bool(a.is_all_commuting) == com, f"commuting iff all pairs commute {where}", moment=m)
    if a.is_knowable:
        need(sorted(prog.rows(a.rectified_ndarray)) == [tuple(x) for x in rect(r, m)], f"settings of a readable event are the private ones {where}", moment=m, got=a.rectified_ndarray)


def run_atoms(c):
    rng = random.Random(c["seed"])
    P = c["P"]
    r = Ref(P)
    prob = scen.problem(P)
    sdp = prog.sdp0(P)
    import inflation.lp.monomial_classes as MC
    ws = words(rng, r, c["n"])
    for w in ws:
        arr = np.array(w, dtype=prob._np_dtype)
        # the scenario's own test on rectified-free events
        ps = [o[0] for o in w]
        if len(set(ps)) == len(ps) and r.one_copy(w):
            e = np.array([[o[0], o[-2], o[-1]] for o in w], dtype=prob._np_dtype)
            got = bool(prob._is_knowable_q_non_networks(e))
            need(got == r.knowable(w), "settings agree with the outcomes of all parents", moment=w, got=got)
        lex = sdp.mon_to_lexrepr(arr)
        can = sdp._to_canonical_memoized_1d(lex)
        if len(can) == 1 and int(can[0]) == 0:
            continue
        mon = sdp.Moment_1d(can)
        for a in mon.factors:
            check_atom(r, a, "(sdp)")
        compound(mon)
        # an event that does not factorise is recognised whatever its copies are called
        if r.knowable(w) and len(r.components(w)) == 1:
            need(bool(mon.is_knowable), "an event read from the distribution is recognised", moment=w)


def compound(mon):
    fs = list(mon.factors)
    need(bool(mon.is_knowable) == all(f.is_knowable for f in fs), "a product is readable iff all factors are", moment=str(mon))
    need(bool(mon.is_do_conditional) == all(f.is_do_conditional for f in fs), "a product is an intervention probability iff all factors are", moment=str(mon))
    k = sorted(map(str, (f for f in fs if f.is_knowable)))
    need(sorted(map(str, mon.knowable_factors)) == k and sorted(map(str, mon.unknowable_factors)) == sorted(str(f) for f in fs if not f.is_knowable), "factors are sorted by readability", moment=str(mon))
    st = "Knowable" if len(k) == len(fs) else "Unknowable" if not k else "Semi"
    need(mon.knowability_status == st and mon.n_factors == len(fs) and mon.n_knowable_factors == len(k), "status of a product", moment=str(mon), got=mon.knowability_status)


def gen_lp(rng, tier):
    for P in prog.stream_lp(rng, 250):
        yield dict(P=P)


def run_lp(c):
    P = c["P"]
    r = Ref(P)
    lp = prog.lp(P)
    for a in lp.atomic_factors:
        m = [tuple(int(x) for x in o) for o in a.as_2d_array]
        need(bool(a.is_do_conditional) == r.one_copy(m), "intervention probability iff at most one copy of each source (lp)", moment=m)
        need(bool(a.is_knowable) == r.knowable(m), "readable from the distribution (lp)", moment=m, got=a.is_knowable)
        if a.is_knowable and m:
            need(sorted(prog.rows(a.rectified_ndarray)) == [tuple(x) for x in rect(r, m)], "private settings (lp)", moment=m)
    for mon in lp.monomials:
        compound(mon)
    cnt = {"Knowable": 0, "Semi": 0, "Unknowable": 0}
    for mon in lp.monomials:
        cnt[mon.knowability_status] += 1
    need((lp.n_knowable, lp.n_something_knowable, lp.n_unknowable) == (cnt["Knowable"], cnt["Semi"], cnt["Unknowable"]), "counts")
    need(set(lp.knowable_atoms) == {m for m in lp.atomic_monomials if all(r.knowable([tuple(map(int, o)) for o in f.as_2d_array]) for f in m.factors)}, "readable atoms")


def gen_sdp(rng, tier):
    for P in prog.stream_sdp(rng, 12):
        yield dict(P=P, spec="npa1" if scen.nops(P) > 8 or rng.random() < .6 else "npa2")


def run_sdp(c):
    P = c["P"]
    r = Ref(P)
    s = prog.sdp(P, c["spec"])
    com = lambda a, b: r.commute(a, b)
    for mon in s.moment_lowerbounds:
        if mon.is_one or mon.is_zero:
            continue
        for f in mon.factors:
            m = [tuple(int(x) for x in o) for o in f.as_2d_array]
            if len(m) > 7:
                continue
            need(tuple(m[::-1]) in trace_class(m, com), "a moment bounded below by zero is a product of palindromes up to commutation", moment=str(mon), factor=m)
    for mon in s.moments:
        if mon.is_zero or mon.is_one:
            continue
        compound(mon)
        for f in mon.factors:
            check_atom(r, f, "(relaxation)")
            m = [tuple(int(x) for x in o) for o in f.as_2d_array]
            if len(m) <= 6:
                need(bool(f.is_hermitian) == (tuple(m[::-1]) in trace_class(m, com)), "self-adjoint iff equal to its reverse up to commutation", factor=m)


def warmup():
    run_kernel(dict(ns=1, mons=[[[1, 1, 0, 0], [2, 1, 0, 0]]]))
    run_phys(dict(mons=[[[1, 1, 0, 0], [1, 1, 1, 0], [1, 1, 0, 0]]]))


GROUPS = {"kernel": (gen_kernel, run_kernel), "physical": (gen_phys, run_phys), "atoms": (gen_atoms, run_atoms), "lp": (gen_lp, run_lp), "sdp": (gen_sdp, run_sdp)}
WEIGHTS = {"kernel": 1, "physical": 1, "atoms": 3, "lp": 2, "sdp": 2}
