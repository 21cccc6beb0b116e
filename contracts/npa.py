"""Contracts of inflation/sdp/fast_npa.py and inflation/lp/numbafied.py.

Representation invariants (preconditions): a monomial is an n x p integer matrix,
p >= 3, column 0 the party (>= 1), columns 1..p-3 the source-copy indices (>= 0),
column p-2 the setting, column p-1 the outcome.
"""
import z3
from pyvc.values import *
from pyvc import values as V

NPA = "inflation/sdp/fast_npa.py"
NUM = "inflation/lp/numbafied.py"


def C(name, module, make, requires, ensures, result=None, **kw):
    d = dict(name=name, module=module, make=make, requires=requires, ensures=ensures, result=result)
    d["params"] = kw.pop("params", None)
    d.update(kw)
    return d


def vec(eng, nm, dtype="i", tag=False):
    n = eng.fresh_int(f"len_{nm}")
    return eng.fresh_arr(nm, (n,), dtype, tag=tag)


def mat(eng, nm, dtype="i", rows=None, cols=None):
    r = rows if rows is not None else eng.fresh_int(f"rows_{nm}")
    c = cols if cols is not None else eng.fresh_int(f"cols_{nm}")
    return eng.fresh_arr(nm, (r, c), dtype)


def shapes_ok(*arrs):
    return [("shape", AND(*[AND(*[V.to_int(x) >= 0 for x in a.shape]) for a in arrs]))]


def row_eq(a, i, b, j):
    return FA(1, lambda c: IMP(inr(c, 0, a.shape[1]), EQ(a.get(i, c), b.get(j, c))))


def mono(m):
    """representation invariant of a 2-d monomial"""
    n, p = m.shape
    return [("monomial shape", AND(V.to_int(n) >= 0, V.to_int(p) >= 3)),
            ("parties start at one", FA(1, lambda i: IMP(inr(i, 0, n), V.zi(m.get(i, 0)) >= 1))),
            ("indices are non-negative", FA(2, lambda i, c: IMP(AND(inr(i, 0, n), inr(c, 0, p)), V.zi(m.get(i, c)) >= 0)))]


def src(m, c):
    """c is a source column of the monomial"""
    return inr(c, 1, V.to_int(m.shape[1]) - 2)


CONTRACTS = {}


def reg(c):
    CONTRACTS[c["name"]] = c
    return c


# ------------------------------------------------------------- elementary maps
reg(C("reverse_mon", NPA,
      make=lambda e, st: dict(mon=mat(e, "mon")),
      requires=lambda e, v: shapes_ok(v["mon"]),
      result=lambda e, v: e.fresh_arr("rev", v["mon"].shape),
      ensures=lambda e, v, r: [("same shape", AND(*[EQ(a, b) for a, b in zip(r.shape, v["mon"].shape)])),
                               ("rows in reverse order", FA(2, lambda i, c: IMP(
                                   AND(inr(i, 0, r.shape[0]), inr(c, 0, r.shape[1])),
                                   EQ(r.get(i, c), v["mon"].get(V.zi(v["mon"].n) - 1 - i, c)))))],
      modular=False))

reg(C("dot_mon", NPA,
      make=lambda e, st: (lambda m1: dict(mon1=m1, mon2=mat(e, "mon2", cols=m1.shape[1])))(mat(e, "mon1")),
      requires=lambda e, v: shapes_ok(v["mon1"], v["mon2"]),
      ensures=lambda e, v, r: [("length adds up", EQ(r.n, add(v["mon1"].n, v["mon2"].n))),
                               ("adjoint of the first factor, then the second", FA(2, lambda i, c: IMP(
                                   AND(inr(i, 0, r.n), inr(c, 0, r.shape[1])),
                                   EQ(r.get(i, c), ITE(lt(i, v["mon1"].n),
                                                       v["mon1"].get(V.zi(v["mon1"].n) - 1 - i, c),
                                                       v["mon2"].get(i - V.zi(v["mon1"].n), c))))))],
      modular=False))


def lexidx_post(e, v, r):
    op, lex = v["operator"], v["lexorder"]
    eqrow = lambda i: FA(1, lambda c: IMP(inr(c, 0, lex.shape[1]), EQ(lex.get(i, c), op.get(c))))
    return [("found row equals the operator and is the first such row",
             OR(AND(inr(r, 0, lex.n), eqrow(V.zi(r)), FA(1, lambda j: IMP(inr(j, 0, V.zi(r)), NOT(eqrow(j))))),
                AND(EQ(r, -1), FA(1, lambda j: IMP(inr(j, 0, lex.n), NOT(eqrow(j)))))))]


reg(C("nb_lexorder_idx", NPA,
      make=lambda e, st: (lambda lex: dict(operator=e.fresh_arr("operator", (lex.shape[1],)), lexorder=lex))(mat(e, "lexorder")),
      requires=lambda e, v: shapes_ok(v["lexorder"]) + [("operator width", EQ(v["operator"].n, v["lexorder"].shape[1]))],
      result=lambda e, v: e.fresh_int("lexidx"),
      ensures=lexidx_post))


def lexrepr_post(e, v, r):
    mon, lex = v["mon"], v["lexorder"]
    return [("length", EQ(r.n, mon.n)),
            ("each entry is the rank of its row", FA(1, lambda i: IMP(inr(i, 0, mon.n), AND(*[
                g for _, g in lexidx_post(e, dict(operator=A((mon.shape[1],), lambda c: mon.get(i, c)), lexorder=lex), r.get(i))]))))]


reg(C("nb_mon_to_lexrepr", NPA,
      make=lambda e, st: (lambda lex: dict(mon=mat(e, "mon", cols=lex.shape[1]), lexorder=lex))(mat(e, "lexorder")),
      requires=lambda e, v: shapes_ok(v["mon"], v["lexorder"]) + [("same width", EQ(v["mon"].shape[1], v["lexorder"].shape[1]))],
      result=lambda e, v: e.fresh_arr("lexrepr", (v["mon"].n,)),
      ensures=lexrepr_post))

# ------------------------------------------------------------------- knowable


def one_copy(m):
    """at most one copy of each source"""
    n = m.n
    return FA(3, lambda c, i, j: IMP(AND(src(m, c), inr(i, 0, n), inr(j, 0, n),
                                         NOT(EQ(m.get(i, c), 0)), NOT(EQ(m.get(j, c), 0))),
                                     EQ(m.get(i, c), m.get(j, c))))


def one_per_party(m):
    return FA(2, lambda i, j: IMP(AND(inr(i, 0, m.n), inr(j, 0, m.n), i < j), NOT(EQ(m.get(i, 0), m.get(j, 0)))))


reg(C("nb_is_knowable", NPA,
      make=lambda e, st: dict(monomial=mat(e, "monomial")),
      requires=lambda e, v: mono(v["monomial"]),
      result=lambda e, v: e.fresh_bool("knowable"),
      ensures=lambda e, v, r: [("knowable iff one operator per party and one copy per source",
                                EQ(V.zb(r), AND(one_per_party(v["monomial"]), one_copy(v["monomial"]))))]))

reg(C("nb_is_do_conditional", NUM,
      make=lambda e, st: dict(monomial=mat(e, "monomial")),
      requires=lambda e, v: mono(v["monomial"]),
      result=lambda e, v: e.fresh_bool("docond"),
      ensures=lambda e, v, r: [("do-conditional iff one copy per source", EQ(V.zb(r), one_copy(v["monomial"])))]))

# --------------------------------------------------------------- factorisation


def shares(a, i, b, j, lo, hi):
    """rows i, j have a common source copy among columns lo..hi-1"""
    return EXI(1, lambda c: AND(inr(c, lo, hi), NOT(EQ(a.get(i, c), 0)), EQ(a.get(i, c), b.get(j, c))))


reg(C("nb_exists_shared_source", NPA,
      make=lambda e, st: (lambda a: dict(inf_indices1=a, inf_indices2=e.fresh_arr("inf2", a.shape)))(vec(e, "inf1")),
      requires=lambda e, v: shapes_ok(v["inf_indices1"], v["inf_indices2"]) + [
          ("same number of sources", EQ(v["inf_indices1"].n, v["inf_indices2"].n))],
      result=lambda e, v: e.fresh_bool("shared"),
      ensures=lambda e, v, r: [("true iff some source has the same non-zero copy in both", EQ(V.zb(r), EXI(1, lambda c: AND(
          inr(c, 0, v["inf_indices1"].n), NOT(EQ(v["inf_indices1"].get(c), 0)),
          EQ(v["inf_indices1"].get(c), v["inf_indices2"].get(c))))))]))


def overlap_post(e, v, r):
    x = v["inflation_indxs"]
    return [("square", AND(EQ(r.shape[0], x.n), EQ(r.shape[1], x.n))),
            ("entry (i, j) iff i = j or rows share a source copy", FA(2, lambda i, j: IMP(
                AND(inr(i, 0, x.n), inr(j, 0, x.n)),
                EQ(V.zb(r.get(i, j)), OR(i == j, shares(x, i, x, j, 0, x.shape[1]))))))]


reg(C("nb_overlap_matrix", NPA,
      make=lambda e, st: dict(inflation_indxs=mat(e, "inflation_indxs")),
      requires=lambda e, v: shapes_ok(v["inflation_indxs"]),
      result=lambda e, v: e.fresh_arr("overlap", (v["inflation_indxs"].n, v["inflation_indxs"].n), "b"),
      ensures=overlap_post))

# ----------------------------------------------------------------- commutation


def commute_spec(op1, op2, S, p):
    """op1, op2: column getters; S(i, j, s) in {0, 1, 2}; p: number of columns"""
    ns = V.to_int(p) - 3
    p1, p2 = sub(op1(0), 1), sub(op2(0), 1)
    rel = lambda s: S(p1, p2, s)
    quantum = lambda s: V.to_int(rel(s)) >= 2
    both = lambda s: V.to_int(rel(s)) >= 1
    no_common_quantum_copy = FA(1, lambda s: IMP(AND(inr(s, 0, ns), quantum(s)),
                                                NOT(EQ(op1(add(1, s)), op2(add(1, s))))))
    same_common = FA(1, lambda s: IMP(AND(inr(s, 0, ns), both(s)), EQ(op1(add(1, s)), op2(add(1, s)))))
    same_setting = EQ(op1(sub(p, 2)), op2(sub(p, 2)))
    return OR(no_common_quantum_copy, AND(same_common, OR(NOT(EQ(op1(0), op2(0))), same_setting)))


def make_ops(e, st):
    ns = e.fresh_int("nr_sources")
    np_ = e.fresh_int("nr_parties")
    S = e.fresh_arr("relevant", (np_, np_, ns))
    return dict(operator1=e.fresh_arr("operator1", (ns + 3,)), operator2=e.fresh_arr("operator2", (ns + 3,)),
                sources_to_check_for_pairwise=S)


def req_ops(e, v):
    o1, o2, S = v["operator1"], v["operator2"], v["sources_to_check_for_pairwise"]
    return [("widths", AND(V.to_int(S.shape[2]) >= 0, EQ(o1.n, add(S.shape[2], 3)), EQ(o2.n, o1.n), EQ(S.shape[0], S.shape[1]))),
            ("parties in range", AND(inr(o1.get(0), 1, V.zi(S.shape[0]) + 1), inr(o2.get(0), 1, V.zi(S.shape[0]) + 1)))]


reg(C("nb_operators_commute", NPA, make=make_ops, requires=req_ops,
      result=lambda e, v: e.fresh_bool("commute"),
      ensures=lambda e, v, r: [("commutes iff the causal structure says so", EQ(V.zb(r), commute_spec(
          v["operator1"].get, v["operator2"].get, v["sources_to_check_for_pairwise"].get, v["operator1"].n)))]))


def make_cm(e, st):
    ns = e.fresh_int("nr_sources")
    np_ = e.fresh_int("nr_parties")
    return dict(lexorder=mat(e, "lexorder", cols=ns + 3),
                sources_to_check_for_pairwise=e.fresh_arr("relevant", (np_, np_, ns)),
                commuting=e.fresh_bool("commuting"))


def req_cm(e, v):
    L, S = v["lexorder"], v["sources_to_check_for_pairwise"]
    return [("shapes", AND(V.to_int(L.n) >= 0, V.to_int(S.shape[2]) >= 0, EQ(L.shape[1], add(S.shape[2], 3)), EQ(S.shape[0], S.shape[1]))),
            ("parties in range", FA(1, lambda i: IMP(inr(i, 0, L.n), inr(L.get(i, 0), 1, V.zi(S.shape[0]) + 1)))),
            ("the source relation of two parties is symmetric", FA(3, lambda a, b, s: EQ(S.get(a, b, s), S.get(b, a, s))))]


def cm_post(e, v, r):
    L, S = v["lexorder"], v["sources_to_check_for_pairwise"]
    com = lambda i, j: commute_spec(lambda c: L.get(i, c), lambda c: L.get(j, c), S.get, L.shape[1])
    rng = lambda i, j: AND(inr(i, 0, L.n), inr(j, 0, L.n))
    return [("square", AND(EQ(r.shape[0], L.n), EQ(r.shape[1], L.n))),
            ("an operator commutes with itself", FA(1, lambda i: IMP(inr(i, 0, L.n), NOT(r.get(i, i))))),
            ("the relation is symmetric", FA(2, lambda i, j: IMP(rng(i, j), EQ(V.zb(r.get(i, j)), V.zb(r.get(j, i)))))),
            ("everything commutes if declared so", IMP(v["commuting"], FA(2, lambda i, j: IMP(rng(i, j), NOT(r.get(i, j)))))),
            ("entry (i, j) iff i and j do not commute", IMP(NOT(v["commuting"]), FA(2, lambda i, j: IMP(
                AND(rng(i, j), i < j), EQ(V.zb(r.get(i, j)), NOT(com(i, j)))))))]


reg(C("commutation_matrix", NPA, make=make_cm, requires=req_cm, ensures=cm_post,
      result=lambda e, v: e.fresh_arr("notcomm", (v["lexorder"].n, v["lexorder"].n), "b")))

# ---------------------------------------------------------------- simplification


def make_sq(e, st):
    m = vec(e, "mon", tag=False)
    m.tag = lambda k: V.zi(k)
    return dict(mon=m)


reg(C("remove_projector_squares", NPA,
      make=make_sq,
      requires=lambda e, v: shapes_ok(v["mon"]),
      result=lambda e, v: vec(e, "nosq"),
      ensures=lambda e, v, r: nosq_post(e, v, r)))


def nosq_post(e, v, r):
    m = v["mon"]
    out = [("length", AND(V.to_int(r.n) >= 0, V.to_int(r.n) <= V.zi(m.n), (V.zi(r.n) > 0) == (V.zi(m.n) > 0)))]
    if r.tag is not None:
        t = r.tag
        out += [("a subsequence of the input", AND(
                    FA(1, lambda k: IMP(inr(k, 0, r.n), AND(inr(t(k), 0, m.n), EQ(r.get(k), m.get(t(k)))))),
                    FA(2, lambda k, l: IMP(AND(inr(k, 0, r.n), inr(l, 0, r.n), k < l), V.zi(t(k)) < V.zi(t(l)))))),
                ("exactly the first factor of each run is kept", FA(1, lambda i: IMP(inr(i, 0, m.n),
                    EQ(EXI(1, lambda k: AND(inr(k, 0, r.n), EQ(t(k), i))), OR(i == 0, NOT(EQ(m.get(i), m.get(i - 1))))))))]
    return out


reg(C("lexmon_is_zero", NPA,
      make=lambda e, st: (lambda n: dict(lexmon=vec(e, "lexmon"), orthomat=e.fresh_arr("ortho", (n, n), "b")))(e.fresh_int("nops")),
      requires=lambda e, v: shapes_ok(v["lexmon"], v["orthomat"]) + [
          ("square", EQ(v["orthomat"].shape[0], v["orthomat"].shape[1])),
          ("ranks in range", FA(1, lambda k: IMP(inr(k, 0, v["lexmon"].n), inr(v["lexmon"].get(k), 0, v["orthomat"].n))))],
      result=lambda e, v: e.fresh_bool("iszero"),
      ensures=lambda e, v, r: [("zero iff the zero operator or two orthogonal neighbours", EQ(V.zb(r), zero_spec(v["lexmon"], v["orthomat"])))]))


def zero_spec(m, o):
    return OR(AND(EQ(m.n, 1), EQ(m.get(0), 0)),
              EXI(1, lambda k: AND(inr(k, 1, m.n), o.get(m.get(k), m.get(k - 1)))))


reg(C("apply_source_perm", NPA,
      make=lambda e, st: dict(monomial=mat(e, "monomial"), source=e.fresh_int("source"), permutation=vec(e, "permutation")),
      requires=lambda e, v: mono(v["monomial"]) + [
          ("source in range", inr(v["source"], 0, V.zi(v["monomial"].shape[1]) - 3)),
          ("copies in range", FA(1, lambda i: IMP(inr(i, 0, v["monomial"].n), inr(v["monomial"].get(i, v["source"] + 1), 0, v["permutation"].n))))],
      result=lambda e, v: e.fresh_arr("permuted", v["monomial"].shape),
      ensures=lambda e, v, r: [("same shape", AND(*[EQ(a, b) for a, b in zip(r.shape, v["monomial"].shape)])),
                               ("only the copies of that source are relabelled", FA(2, lambda i, c: IMP(
                                   AND(inr(i, 0, r.n), inr(c, 0, r.shape[1])),
                                   EQ(r.get(i, c), ITE(c == v["source"] + 1, v["permutation"].get(v["monomial"].get(i, c)),
                                                       v["monomial"].get(i, c))))))]))

reg(C("nb_all_commuting_q", NPA,
      make=lambda e, st: (lambda lex, mon: dict(mon=mon, lexorder=lex, notcomm=e.fresh_arr("notcomm", (lex.n, lex.n), "b"),
                                                _rank=e.fresh_arr("rank", (mon.n,))))(*(lambda l: (l, mat(e, "mon", cols=l.shape[1])))(mat(e, "lexorder"))),
      requires=lambda e, v: shapes_ok(v["mon"], v["lexorder"]) + [
          ("same width", EQ(v["mon"].shape[1], v["lexorder"].shape[1])),
          ("zero diagonal", FA(1, lambda i: NOT(v["notcomm"].get(i, i)))),
          ("every operator is listed, at its rank", FA(1, lambda i: IMP(inr(i, 0, v["mon"].n), AND(
              inr(v["_rank"].get(i), 0, v["lexorder"].n),
              FA(1, lambda c: IMP(inr(c, 0, v["mon"].shape[1]), EQ(v["mon"].get(i, c), v["lexorder"].get(v["_rank"].get(i), c)))))))),
          ("and only there", FA(2, lambda i, j: IMP(AND(inr(i, 0, v["mon"].n), inr(j, 0, v["lexorder"].n), NOT(EQ(j, v["_rank"].get(i)))),
              EXI(1, lambda c: AND(inr(c, 0, v["mon"].shape[1]), NOT(EQ(v["mon"].get(i, c), v["lexorder"].get(j, c))))))))],
      ensures=lambda e, v, r: [("true iff all pairs of factors commute", EQ(V.zb(r), FA(2, lambda i, j: IMP(
          AND(inr(i, 0, v["mon"].n), inr(j, 0, v["mon"].n)),
          NOT(v["notcomm"].get(v["_rank"].get(i), v["_rank"].get(j)))))))]))


def boolvec_post(e, v, r):
    mon, lex = v["mon"], v["lexorder"]
    return [("length", EQ(r.n, lex.n)),
            ("entry i iff operator i occurs in the monomial", FA(1, lambda i: IMP(inr(i, 0, lex.n),
                EQ(V.zb(r.get(i)), EXI(1, lambda k: AND(inr(k, 0, mon.n), row_eq(mon, k, lex, i)))))))]


reg(C("nb_mon_to_lexrepr_bool", NUM,
      make=lambda e, st: (lambda lex: dict(mon=mat(e, "mon", cols=lex.shape[1]), lexorder=lex))(mat(e, "lexorder")),
      requires=lambda e, v: shapes_ok(v["mon"], v["lexorder"]) + [("same width", EQ(v["mon"].shape[1], v["lexorder"].shape[1]))],
      ensures=boolvec_post))


def outer_post(op):
    def f(e, v, r):
        a, b = v["a"], v["b"]
        nb = V.zi(b.shape[0])
        return [("rows are all pairs, first index major", AND(EQ(r.shape[0], V.zi(a.shape[0]) * nb), EQ(r.shape[1], a.shape[1]))),
                ("entries combine the pair", FA(3, lambda i, j, c: IMP(AND(inr(i, 0, a.shape[0]), inr(j, 0, nb), inr(c, 0, a.shape[1])),
                    EQ(V.zb(r.get(i * nb + j, c)), op(a.get(i, c), b.get(j, c))))))]
    return f


for nm, op in (("nb_outer_bitwise_or", OR), ("nb_outer_bitwise_xor", lambda x, y: NOT(EQ(V.zb(x), V.zb(y))))):
    reg(C(nm, NUM,
          make=lambda e, st: (lambda a: dict(a=a, b=mat(e, "b", "b", cols=a.shape[1])))(mat(e, "a", "b")),
          requires=lambda e, v: shapes_ok(v["a"], v["b"]) + [("same width", EQ(v["a"].shape[1], v["b"].shape[1])), ("non-empty", V.zi(v["b"].shape[0]) >= 1)],
          ensures=outer_post(op)))


# ------------------------------------------------ commutation normal form (C01)
def nc(N, x, y):
    return N.get(x, y)


def make_canon(e, st):
    m = e.fresh_arr("lexmon", (e.fresh_int("len_lexmon"),), "i")
    m.tag = lambda k: V.zi(k)
    k = e.fresh_int("nr_ops")
    return dict(lexmon=m, notcomm=e.fresh_arr("notcomm", (k, k), "b"))


def req_canon(e, v):
    m, N = v["lexmon"], v["notcomm"]
    return [("sizes", AND(V.zi(m.n) >= 0, V.zi(N.shape[0]) >= 1)),
            ("ranks in range", FA(1, lambda k: IMP(inr(k, 0, m.n), inr(m.get(k), 0, N.shape[0])))),
            ("the non-commutation relation is symmetric with an empty diagonal", AND(
                FA(2, lambda a, b: N.get(a, b) == N.get(b, a)), FA(1, lambda a: NOT(N.get(a, a)))))]


def rearranged(w, r, N):
    """r is w after swaps of adjacent commuting letters: a position-injective
    rearrangement keeping the order of every non-commuting pair"""
    t = r.tag
    return [("same length", EQ(r.n, w.n)),
            ("every factor is one of the given factors", FA(1, lambda k: IMP(inr(k, 0, r.n), AND(inr(t(k), 0, w.n), EQ(r.get(k), w.get(t(k))))))),
            ("no factor is used twice", FA(2, lambda k, l: IMP(AND(inr(k, 0, r.n), inr(l, 0, r.n), k < l), NOT(EQ(t(k), t(l)))))),
            ("non-commuting factors keep their order", FA(2, lambda k, l: IMP(
                AND(inr(k, 0, r.n), inr(l, 0, r.n), k < l, nc(N, r.get(k), r.get(l))), lt(t(k), t(l)))))]


def movable_to(r, N, l, k):
    """factor l commutes with the factors k..l-1"""
    return FA(1, lambda m: IMP(inr(m, k, l), NOT(nc(N, r.get(m), r.get(l)))))


def smallest(r, N):
    """lexicographic normal form: nothing smaller can be moved in front"""
    return [("no factor can be moved in front of a larger one", FA(2, lambda k, l: IMP(
        AND(0 <= k, k < l, lt(l, r.n), movable_to(r, N, l, k)), le(r.get(k), r.get(l)))))]


reg(C("nb_lexmon_to_canonical", NPA, make=make_canon, requires=req_canon,
      result=lambda e, v: e.fresh_arr("canon", (v["lexmon"].n,), "i", tag=True),
      ensures=lambda e, v, r: rearranged(v["lexmon"], r, v["notcomm"]) + smallest(r, v["notcomm"])))


def inv_outer(eng, v):
    res, left, w, N = v["result"], v["leftover"], v["_params"]["lexmon"], v["_params"]["notcomm"]
    tr, tl = res.tag, left.tag
    out = [("lengths add up", AND(EQ(add(res.n, left.n), w.n), V.zi(res.n) >= 0, V.zi(left.n) >= 0))]
    out += [("result factors", FA(1, lambda k: IMP(inr(k, 0, res.n), AND(inr(tr(k), 0, w.n), EQ(res.get(k), w.get(tr(k))))))),
            ("leftover factors", FA(1, lambda k: IMP(inr(k, 0, left.n), AND(inr(tl(k), 0, w.n), EQ(left.get(k), w.get(tl(k))))))),
            ("leftover in original order", FA(2, lambda k, l: IMP(AND(0 <= k, k < l, lt(l, left.n)), lt(tl(k), tl(l))))),
            ("result used once", FA(2, lambda k, l: IMP(AND(0 <= k, k < l, lt(l, res.n)), NOT(EQ(tr(k), tr(l)))))),
            ("disjoint", FA(2, lambda k, l: IMP(AND(inr(k, 0, res.n), inr(l, 0, left.n)), NOT(EQ(tr(k), tl(l)))))),
            ("order in result", FA(2, lambda k, l: IMP(AND(0 <= k, k < l, lt(l, res.n), nc(N, res.get(k), res.get(l))), lt(tr(k), tr(l))))),
            ("order across", FA(2, lambda k, l: IMP(AND(inr(k, 0, res.n), inr(l, 0, left.n), nc(N, res.get(k), left.get(l))), lt(tr(k), tl(l))))),
            ("result minimal", FA(2, lambda k, l: IMP(AND(0 <= k, k < l, lt(l, res.n), movable_to(res, N, l, k)), le(res.get(k), res.get(l))))),
            ("nothing left could come earlier", FA(2, lambda k, l: IMP(
                AND(inr(k, 0, res.n), inr(l, 0, left.n), movable_to(left, N, l, 0),
                    FA(1, lambda m: IMP(inr(m, k, res.n), NOT(nc(N, res.get(m), left.get(l)))))),
                le(res.get(k), left.get(l)))))]
    return out


def inv_argmin(eng, v):
    w, N, i = v["word"], v["_params"]["notcomm"], v["_i"]
    mi, mn = v["minimum_idx"], v["minimum"]
    mov = lambda q: FA(1, lambda m: IMP(inr(m, 0, q), NOT(nc(N, w.get(q), w.get(m)))))
    out = [("position", AND(inr(mi, 0, V.zi(i) + 1))),
           ("value at position", EQ(mn, w.get(mi))),
           ("can be moved to the front", mov(V.zi(mi))),
           ("least of those seen", FA(1, lambda q: IMP(AND(0 <= q, le(q, i), mov(q)), le(mn, w.get(q)))))]
    return out


INVARIANTS = [
    dict(name="normal form so far", kind="while", func=("nb_lexmon_to_canonical",),
         roles=dict(result=("ref", 1), leftover=("ref", 1)), inv=inv_outer,
         variant=lambda v: v["leftover"].n),
    dict(name="smallest movable factor", kind="for", func=("nb_lexmon_to_canonical",),
         roles=dict(minimum=("int",), minimum_idx=("int",)), reads=dict(word=("ref", 1)), read_names=dict(word="lexmon"), inv=inv_argmin),
]
