"""Independent reference semantics of a scenario, from its DAG alone (pure Python)."""
from itertools import product, permutations


class Ref:
    def __init__(self, P):
        """P: keyword arguments of InflationProblem (JSON)"""
        dag = {str(k): set(map(str, v)) for k, v in P["dag"].items()}
        self.dag = dag
        cl = set(P.get("classical_intermediate_latents", ()))
        nl = set(P.get("nonclassical_intermediate_latents", ()))
        lat = cl | nl
        visible = set().union(*dag.values()) - lat
        self.names = list(P["order"]) if P.get("order") else sorted(visible)
        self.nparties = len(self.names)
        self.sources = [k for k in dag if k not in self.names and k not in lat]
        self.ns = len(self.sources)
        cs = P.get("classical_sources", ())
        self.classical = [True] * self.ns if cs == "all" else [s in (cs or ()) for s in self.sources]
        lv = P.get("inflation_level_per_source") or 1
        self.levels = [lv] * self.ns if isinstance(lv, int) else list(lv)
        self.out = list(P["outcomes_per_party"])
        self.priv = list(P.get("settings_per_party") or [1] * self.nparties)
        ix = {n: i for i, n in enumerate(self.names)}
        self.parents = [[i for i, n in enumerate(self.names) if n in dag and self.names[j] in dag[n]] for j in range(self.nparties)]
        self.eff = [list(product(range(self.priv[j]), *[range(self.out[p]) for p in self.parents[j]])) for j in range(self.nparties)]
        # which sources are in the past of which party (directly or through a latent)
        self.past = [[False] * self.ns for _ in self.names]
        # rel[p][q][s]: 0 not jointly acted on through the same system, 1 classically, 2 through a quantum system
        self.rel = [[[0] * self.ns for _ in self.names] for _ in self.names]
        for s, src in enumerate(self.sources):
            q = not self.classical[s]
            for ch in dag[src]:
                if ch in ix:
                    self.past[ix[ch]][s] = True
                    self.rel[ix[ch]][ix[ch]][s] = max(self.rel[ix[ch]][ix[ch]][s], 2 if q else 1)
                else:
                    for d in dag[ch]:
                        self.past[ix[d]][s] = True
                        for d2 in dag[ch]:
                            a, b = ix[d], ix[d2]
                            self.rel[a][b][s] = max(self.rel[a][b][s], 2 if (q and ch in nl) else 1)
        self.quantum = not all(self.classical)
        self.is_network = not any(n in dag for n in self.names)

    def operators(self):
        """every operator (party, copies..., setting, outcome)"""
        out = []
        for p in range(self.nparties):
            for c in product(*[range(1, self.levels[s] + 1) if self.past[p][s] else (0,) for s in range(self.ns)]):
                for x in range(len(self.eff[p])):
                    for a in range(self.out[p]):
                        out.append((p + 1,) + c + (x, a))
        return out

    def copies(self, op):
        return op[1:1 + self.ns]

    def commute(self, o1, o2):
        if not self.quantum:
            return True
        r = self.rel[o1[0] - 1][o2[0] - 1]
        c1, c2 = self.copies(o1), self.copies(o2)
        qs = [s for s in range(self.ns) if r[s] == 2]
        if not any(c1[s] == c2[s] for s in qs):
            return True
        if any(c1[s] != c2[s] for s in range(self.ns) if r[s] >= 1):
            return False
        return o1[0] != o2[0] or o1[-2] == o2[-2]

    def orthogonal(self, o1, o2):
        return o1[:-1] == o2[:-1] and o1[-1] != o2[-1]

    def share(self, o1, o2):
        return any(a == b and a > 0 for a, b in zip(self.copies(o1), self.copies(o2)))

    def components(self, ops):
        """partition of positions into source-connected components"""
        n = len(ops)
        lab = list(range(n))
        ch = True
        while ch:
            ch = False
            for i in range(n):
                for j in range(n):
                    if self.share(ops[i], ops[j]) and lab[i] != lab[j]:
                        lab[i] = lab[j] = min(lab[i], lab[j])
                        ch = True
        comps = {}
        for i in range(n):
            comps.setdefault(lab[i], []).append(i)
        return list(comps.values())

    def relabelings(self):
        """all maps of operators given by permutations of the copies of each source"""
        for ps in product(*[list(permutations(range(1, l + 1))) for l in self.levels]):
            yield lambda op, ps=ps: (op[0],) + tuple(0 if c == 0 else ps[s][c - 1] for s, c in enumerate(self.copies(op))) + tuple(op[-2:])

    def knowable(self, ops):
        ps = [o[0] for o in ops]
        if len(set(ps)) != len(ps):
            return False
        if not self.one_copy(ops):
            return False
        by = {o[0] - 1: o[-1] for o in ops}
        for o in ops:
            p = o[0] - 1
            st = self.eff[p][o[-2]]
            for q, v in zip(self.parents[p], st[1:]):
                if q not in by or by[q] != v:
                    return False
        return True

    def one_copy(self, ops):
        return all(len({self.copies(o)[s] for o in ops} - {0}) <= 1 for s in range(self.ns))

    def do_conditional(self, ops):
        return self.one_copy(ops)


# ----------------------------------------------------------- words of projectors
def trace_class(word, commute):
    """all words reachable by swapping adjacent commuting letters"""
    seen = {tuple(word)}
    todo = [tuple(word)]
    while todo:
        w = todo.pop()
        for i in range(len(w) - 1):
            if w[i] != w[i + 1] and commute(w[i], w[i + 1]):
                v = w[:i] + (w[i + 1], w[i]) + w[i + 2:]
                if v not in seen:
                    seen.add(v)
                    todo.append(v)
    return seen


def canonical(word, commute, orth, projectors=True):
    """least representative, or None for the zero product; brute force over
    all arrangements, merging squares wherever they can be brought together"""
    todo, seen = [tuple(word)], set()
    best = None
    while todo:
        w = todo.pop()
        if w in seen:
            continue
        cls = trace_class(w, commute)
        seen |= cls
        if projectors:
            shorter = None
            for v in cls:
                for i in range(len(v) - 1):
                    if orth(v[i], v[i + 1]):
                        return None
                    if v[i] == v[i + 1] and shorter is None:
                        shorter = v[:i] + v[i + 1:]
            if shorter is not None:
                todo.append(shorter)
                continue
        best = min(cls)
    return best
