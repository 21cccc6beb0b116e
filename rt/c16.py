"""C16: the scenario built from a DAG is the inflated scenario of that DAG."""
from .base import *
from . import scen
from .ref import Ref
import numpy as np


def variants(rng, P):
    P = dict(P)
    r = rng.random()
    if r < .15:
        P.pop("settings_per_party", None)
    elif r < .25 and P.get("inflation_level_per_source"):
        P["inflation_level_per_source"] = rng.choice([1, 2])
    elif r < .33:
        P["order"] = ["Zed"] + list(Ref(P).names)[1:]     # does not match: ignored
        P["_bad_order"] = True
    elif r < .38:
        P.pop("inflation_level_per_source", None)
    return P


def gen(rng, tier):
    for k, P in enumerate(scen.stream(rng, 250)):
        yield P
        yield variants(rng, P)


def rows(a):
    return [tuple(int(x) for x in r) for r in np.asarray(a)]


def run(P):
    Q = {k: v for k, v in P.items() if not k.startswith("_")}
    before = json.dumps(Q)
    prob = scen.problem(Q)
    if P.get("_bad_order"):
        Q = {k: v for k, v in Q.items() if k != "order"}
    r = Ref(Q)
    need(list(prob.names) == r.names, "names and their order", got=prob.names, want=r.names)
    need(prob.nr_parties == r.nparties and prob.nr_sources == r.ns, "number of parties and sources")
    need(list(prob._actual_sources) == r.sources, "sources are the parentless latent nodes in insertion order", got=prob._actual_sources)
    need([int(x) for x in prob.inflation_level_per_source] == r.levels, "inflation levels")
    need([[bool(prob.hypergraph[s, p]) for s in range(r.ns)] for p in range(r.nparties)] == r.past, "which sources lie in the past of which party")
    need([list(map(int, x)) for x in prob.parents_per_party] == r.parents, "observed parents", got=prob.parents_per_party)
    need(tuple(prob.expected_distro_shape) == tuple(r.out) + tuple(r.priv), "distribution shape", got=prob.expected_distro_shape)
    need([bool(x) for x in prob._classical_sources] == r.classical and [bool(x) for x in prob._nonclassical_sources] == [not c for c in r.classical], "kind of sources")
    need(bool(prob.is_network) == r.is_network, "network or not")
    need([bool(x) for x in prob.has_children] == [any(j in r.parents[k] for k in range(r.nparties)) for j in range(r.nparties)], "parties with children")
    need([int(x) for x in prob.settings_per_party] == [len(e) for e in r.eff], "number of effective settings", got=prob.settings_per_party)
    for p in range(r.nparties):
        m = prob.effective_to_parent_settings[p]
        need(sorted(int(k) for k in m) == list(range(len(r.eff[p]))), "effective settings are 0..k-1", party=p, got=m)
        vals = [tuple(int(x) for x in v) for v in m.values()]
        need(sorted(vals) == sorted(r.eff[p]), "effective settings are one to one with private setting and parent outcomes", party=p, got=vals, want=r.eff[p])
    ops, want = rows(prob._lexorder), r.operators()
    need(len(set(ops)) == len(ops), "no operator is listed twice")
    need(set(ops) == set(want), "exactly the operators of the inflated scenario", extra=sorted(set(ops) - set(want))[:3], missing=sorted(set(want) - set(ops))[:3])
    need(prob._nr_operators == len(want), "number of operators")
    groups = [[tuple(x) for x in rows(g)] for g in prob._ortho_groups]
    need(sorted(o for g in groups for o in g) == sorted(want), "the measurements contain every operator once")
    for g in groups:
        need(len({o[:-1] for o in g}) == 1 and sorted(o[-1] for o in g) == list(range(r.out[g[0][0] - 1])), "a measurement has one operator per outcome", group=g)
    for g, ix in zip(groups, prob._ortho_idxs):
        need([ops[i] for i in ix] == g, "measurement indices point at the operators", group=g, idx=ix)
    need(len(prob._ortho_idxs) == len(groups), "one index block per measurement")
    for p in range(r.nparties):
        gp = [[tuple(x) for x in rows(g)] for g in prob._ortho_groups_per_party[p]]
        need(all(o[0] == p + 1 for g in gp for o in g) and len(gp) == len({o[:-1] for o in want if o[0] == p + 1}), "measurements are grouped by party")
        ms = rows(np.asarray(prob.measurements[p]).reshape(-1, prob._nr_properties))
        need(sorted(ms) == sorted(o for o in want if o[0] == p + 1), "measurements of a party")
    need([int(x) for x in prob._template_idxs] == [int(ix[0]) for ix in prob._ortho_idxs], "one representative per measurement")
    need([int(x) for x in prob.party_from_lexidx] == [o[0] for o in ops], "party of each operator")
    for k, o in enumerate(ops):
        need([int(x) for x in prob.mon_to_lexrepr(np.array([o]))] == [k], "rank of an operator", op=o)
    indep = any(not r.share(a, b) for a in want for b in want)
    if indep:
        need(bool(prob.ever_factorizes), "factorisation is considered when two independent operators exist")
    comp = prob._compatible_template_measurements
    t = [ops[i] for i in prob._template_idxs]
    for i in range(len(t)):
        for j in range(len(t)):
            need(bool(comp[i, j]) == r.commute(t[i], t[j]), "measurements are compatible iff they commute", a=t[i], b=t[j])
    f, O = prob._lexorder_for_factorization, prob._inflation_indices_overlap
    for i in range(0, len(ops), max(1, len(ops) // 25)):
        for j in range(len(ops)):
            need(bool(O[f[i], f[j]]) == r.share(ops[i], ops[j]), "operators overlap iff they share a source copy", a=ops[i], b=ops[j])
    ev = sorted(rows(prob.original_dag_events))
    need(ev == sorted((p + 1, x, a) for p in range(r.nparties) for x in range(r.priv[p]) for a in range(r.out[p])), "events of the original scenario")
    need(json.dumps(Q) == before or P.get("_bad_order"), "the arguments are not modified")
    return "trivial" if len(ops) < 3 else None


# ---- many settings, outcomes or copies: the integers in the tables are wide enough
LARGE = [dict(dag={"q": ["A", "B", "C"], "A": ["C"], "B": ["C"]}, outcomes_per_party=[13, 13, 2], settings_per_party=[1, 1, 2], inflation_level_per_source=[1]),
         dict(dag={"q": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[300, 1]),
         dict(dag={"q": ["A", "B"]}, outcomes_per_party=[300, 2], settings_per_party=[1, 2]),
         dict(dag={"q": ["A", "B"], "A": ["B"]}, outcomes_per_party=[260, 2], settings_per_party=[1, 1]),
         dict(dag={"q": ["A"]}, outcomes_per_party=[2], settings_per_party=[1], inflation_level_per_source=[260]),
         dict(dag={"q": ["A", "B", "C", "D"], "A": ["D"], "B": ["D"], "C": ["D"]}, outcomes_per_party=[7, 7, 7, 2], settings_per_party=[1, 1, 1, 1])]


def gen_large(rng, tier):
    for P in LARGE:
        yield P


def run_large(P):
    prob = scen.problem(P)
    r = Ref(P)
    ops, want = rows(prob._lexorder), r.operators()
    need(len(ops) == len(want) and set(ops) == set(want), "exactly the operators of the inflated scenario, once each", got=len(ops), distinct=len(set(ops)), want=len(want))
    for p in range(r.nparties):
        m = prob.effective_to_parent_settings[p]
        need(sorted(int(k) for k in m) == list(range(len(r.eff[p]))) and sorted(tuple(int(x) for x in v) for v in m.values()) == sorted(r.eff[p]), "effective settings are one to one with private setting and parent outcomes", party=p)
    groups = [[tuple(x) for x in rows(g)] for g in prob._ortho_groups]
    need(sorted(o for g in groups for o in g) == sorted(want) and all(len({o[:-1] for o in g}) == 1 for g in groups), "complete measurements")


# ---- scenarios without a DAG, explicit names, and rejected inputs
def gen_misc(rng, tier):
    for n in (1, 2, 3):
        for k in range(4):
            yield dict(kind="nodag", outs=[rng.randint(2, 3) for _ in range(n)], sets=[rng.randint(1, 3) for _ in range(n)], lv=rng.choice([1, 2]), order=rng.choice([None, ["U", "V", "W"][:n], ["U"] * (n + 1)]))
    for k in range(40):
        P = scen.rand(rng, 60)
        yield dict(kind="reject", P=P, how=rng.choice(["outs", "sets", "levels", "classical", "empty", "nosource"]))


def run_misc(c):
    from inflation import InflationProblem
    if c["kind"] == "nodag":
        n = len(c["outs"])
        prob = InflationProblem(outcomes_per_party=c["outs"], settings_per_party=c["sets"], inflation_level_per_source=c["lv"], **({"order": c["order"]} if c["order"] else {}))
        names = c["order"] if c["order"] and len(c["order"]) == n else ["A", "B", "C"][:n]
        need(list(prob.names) == names, "names without a DAG", got=prob.names, want=names)
        r = Ref(dict(dag={"h": names}, outcomes_per_party=c["outs"], settings_per_party=c["sets"], inflation_level_per_source=c["lv"], order=names))
        need(sorted(rows(prob._lexorder)) == sorted(r.operators()), "operators of the single-source scenario")
        return
    P = json.loads(json.dumps(c["P"]))
    how = c["how"]
    if how == "outs":
        P["outcomes_per_party"] = P["outcomes_per_party"] + [2]
    elif how == "sets":
        P["settings_per_party"] = P["settings_per_party"] + [1]
    elif how == "levels":
        P["inflation_level_per_source"] = P["inflation_level_per_source"] + [1]
    elif how == "classical":
        P["classical_sources"] = ["nosuch"]
    elif how == "empty":
        P["outcomes_per_party"] = []
    elif how == "nosource":
        P["dag"] = {k: [x for x in v if x != "A"] for k, v in P["dag"].items()}
        P["dag"]["B"] = P["dag"].get("B", []) + ["A"]
        if not any("B" in v for v in P["dag"].values()):
            raise Skip("")
    try:
        InflationProblem(**P)
    except (AssertionError, ValueError, KeyError, IndexError, NotImplementedError):
        return
    need(how == "nosource", "an inconsistent specification is rejected", how=how)
    r = Ref(P)
    need(all(any(x) for x in r.past), "a party without any source is rejected")


GROUPS = {"scenario": (gen, run), "misc": (gen_misc, run_misc), "large": (gen_large, run_large)}
WEIGHTS = {"scenario": 4, "misc": 1, "large": 1}
