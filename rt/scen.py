"""Scenarios: a fixed list covering every kind of causal structure, and random ones."""
from . import base
from functools import lru_cache
import json

HAND = {
    "bell": dict(dag={"h": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[2, 2]),
    "bell2": dict(dag={"h": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[2, 2], inflation_level_per_source=[2]),
    "bell_cl": dict(dag={"h": ["A", "B"]}, outcomes_per_party=[2, 3], settings_per_party=[2, 1], classical_sources="all"),
    "tri2": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "t": ["A", "C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 1], inflation_level_per_source=[2, 2, 2]),
    "tri_mixed": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "t": ["A", "C"]}, outcomes_per_party=[2, 3, 2], settings_per_party=[1, 1, 2], inflation_level_per_source=[2, 1, 2], classical_sources=["s"], order=["C", "A", "B"]),
    "biloc": dict(dag={"l": ["A", "B"], "m": ["B", "C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[2, 1, 2], inflation_level_per_source=[2, 2]),
    "evans": dict(dag={"a": ["A", "B"], "b": ["B", "C"], "B": ["A", "C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 1], inflation_level_per_source=[2, 2]),
    "instr": dict(dag={"h": ["A", "B"], "A": ["B"]}, outcomes_per_party=[2, 3], settings_per_party=[2, 1]),
    "instr2": dict(dag={"h": ["A", "B"], "A": ["B"]}, outcomes_per_party=[2, 2], settings_per_party=[3, 2], inflation_level_per_source=[2], classical_sources=["h"]),
    "chain": dict(dag={"u": ["A", "B"], "v": ["B", "C"], "A": ["B"], "B": ["C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[2, 1, 1]),
    "parents2": dict(dag={"q": ["A", "C"], "r": ["B", "C"], "A": ["C"], "B": ["C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 1]),
    "latq": dict(dag={"s": ["X", "C"], "t": ["X", "C"], "X": ["A", "B"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[2, 2, 1], inflation_level_per_source=[2, 1], nonclassical_intermediate_latents=["X"]),
    "latc": dict(dag={"s": ["X", "C"], "X": ["A", "B"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[2, 1, 2], inflation_level_per_source=[2], classical_intermediate_latents=["X"]),
    "lat2": dict(dag={"s": ["X", "Y"], "t": ["Y", "X", "A"], "X": ["A", "B"], "Y": ["B", "C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 2], inflation_level_per_source=[2, 1], nonclassical_intermediate_latents=["X"], classical_intermediate_latents=["Y"]),
    "cut": dict(dag={"r": ["A"], "s": ["B", "C"]}, outcomes_per_party=[3, 2, 2], settings_per_party=[1, 2, 1], inflation_level_per_source=[1, 2], order=["B", "C", "A"]),
    "longnames": dict(dag={"lam": ["Alice", "Bob"], "mu": ["Bob", "Eve1"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[2, 1, 1], inflation_level_per_source=[1, 2], order=["Bob", "Alice", "Eve1"]),
    "tri_big": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "t": ["A", "C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[1, 1, 1], inflation_level_per_source=[3, 2, 1]),
    "single": dict(dag={"h": ["A"]}, outcomes_per_party=[3], settings_per_party=[2], inflation_level_per_source=[2]),
    "deep": dict(dag={"q": ["A"], "r": ["B"]}, outcomes_per_party=[2, 2], settings_per_party=[1, 1], inflation_level_per_source=[3, 1]),
    "deep_cl": dict(dag={"q": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[1, 1], inflation_level_per_source=[3], classical_sources="all"),
    "l1_3": dict(dag={"r": ["A", "B"], "s": ["B", "C"], "t": ["A", "C"]}, outcomes_per_party=[2, 2, 2], settings_per_party=[2, 1, 1]),
}

# labels with more than one digit
WIDE = [
    dict(dag={"h": ["A", "B"]}, outcomes_per_party=[13, 13], settings_per_party=[1, 1]),
    dict(dag={"h": ["A", "B"]}, outcomes_per_party=[2, 2], settings_per_party=[12, 12]),
    dict(dag={"h": ["A", "B"]}, outcomes_per_party=[13, 2], settings_per_party=[1, 12], classical_sources="all"),
    dict(dag={"h": ["A", "B"], "A": ["B"]}, outcomes_per_party=[11, 3], settings_per_party=[1, 2]),
]


def nops(P):
    from .ref import Ref
    r = Ref(P)
    n = 0
    for p in range(r.nparties):
        m = len(r.eff[p]) * r.out[p]
        for s in range(r.ns):
            if r.past[p][s]:
                m *= r.levels[s]
        n += m
    return n


def rand(rng, maxops=40, quantum=None, latents=True, nonnet=True, maxparties=4, levels=(1, 2, 2, 3), maxset=3, maxout=3):
    for _ in range(500):
        n = rng.choice([x for x in (1, 2, 2, 3, 3, 3, 4) if x <= maxparties])
        names = [chr(65 + i) for i in range(n)]
        if rng.random() < .15:
            names = [x + rng.choice(["", "1", "lice"]) for x in names]
        ns = rng.choice([1, 1, 2, 2, 3])
        srcs = ["s%d" % i for i in range(ns)]
        dag = {s: sorted(rng.sample(names, rng.randint(1, min(n, 3)))) for s in srcs}
        lat_q, lat_c = [], []
        if latents and n >= 2 and rng.random() < .35:
            for l in ["X", "Y"][:rng.choice([1, 1, 2])]:
                q = rng.random() < .6
                (lat_q if q else lat_c).append(l)
                for s in rng.sample(srcs, rng.randint(1, ns)):
                    dag[s] = dag[s] + [l]
                dag[l] = sorted(rng.sample(names, rng.randint(1, min(n, 3))))
        if nonnet and n >= 2 and rng.random() < .4:
            for i in range(n):
                for j in range(i + 1, n):
                    if rng.random() < .45:
                        dag.setdefault(names[i], []).append(names[j])
        if rng.random() < .3:
            items = list(dag.items())
            rng.shuffle(items)
            dag = dict(items)
        P = dict(dag=dag, outcomes_per_party=[rng.choice([2, 2, 2, min(3, maxout)]) for _ in names],
                 settings_per_party=[rng.choice([x for x in (1, 1, 2, 3) if x <= maxset]) for _ in names],
                 inflation_level_per_source=[rng.choice(levels) for _ in srcs])
        cl = [s for s in srcs if rng.random() < .3]
        if quantum is False:
            P["classical_sources"] = "all"
        elif quantum is True:
            pass
        elif cl:
            P["classical_sources"] = cl
        if lat_q:
            P["nonclassical_intermediate_latents"] = lat_q
        if lat_c:
            P["classical_intermediate_latents"] = lat_c
        covered = set(x for k, v in dag.items() if k in srcs or k in lat_q + lat_c for x in v)
        allnames = set(names)
        if not allnames <= covered:
            continue
        cs = set(srcs) if quantum is False else (set() if quantum is True else set(cl))
        if any(all(p in cs for p in srcs if l in dag[p]) for l in lat_q) or any(not any(l in dag[p] for p in srcs) for l in lat_c):
            continue
        if rng.random() < .4:
            o = names[:]
            rng.shuffle(o)
            P["order"] = o
        # outcomes/settings refer to positions; fine for any order
        if nops(P) <= maxops:
            return P
    return dict(HAND["bell"])


@lru_cache(maxsize=64)
def _build(key):
    from inflation import InflationProblem
    return InflationProblem(**json.loads(key))


def problem(P):
    return _build(json.dumps(P))


def ref(P):
    from .ref import Ref
    return Ref(P)


def stream(rng, maxops=40, hand=None, **kw):
    """hand-picked scenarios first, then random ones"""
    for k, P in HAND.items():
        if (hand is None or k in hand) and nops(P) <= maxops:
            yield dict(P)
    while True:
        yield rand(rng, maxops, **kw)
