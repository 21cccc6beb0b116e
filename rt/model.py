"""Genuine behaviours of a scenario: deterministic classical models and quantum models."""
import random
from itertools import product
import numpy as np
from .ref import Ref


class CModel:
    """every source carries a finite random value, every party answers with a
    deterministic function of its effective setting and the values in its past"""

    def __init__(self, P, seed, k=2):
        self.r = r = Ref(P)
        rng = random.Random(seed)
        self.k = [rng.choice([1, k, k, k + 1] if r.ns < 3 else [1, k, k]) for _ in range(r.ns)]
        self.w = []
        for n in self.k:
            x = [rng.choice([1, 1, 2, 3, 0]) for _ in range(n)]
            x[0] += 1
            t = float(sum(x))
            self.w.append([v / t for v in x])
        self.f = []
        for p in range(r.nparties):
            past = [s for s in range(r.ns) if r.past[p][s]]
            self.f.append({(x, v): rng.randrange(r.out[p]) for x in range(len(r.eff[p])) for v in product(*[range(self.k[s]) for s in past])})
        self.past = [[s for s in range(r.ns) if r.past[p][s]] for p in range(r.nparties)]
        self.memo = {}

    def moment(self, ops):
        """probability that every operator (party, copies, setting, outcome) reads 1"""
        ops = tuple(sorted(set(map(tuple, ops))))
        if ops in self.memo:
            return self.memo[ops]
        r = self.r
        nodes = sorted({(s, o[1 + s]) for o in ops for s in range(r.ns) if o[1 + s]})
        tot = 0.
        for v in product(*[range(self.k[s]) for s, _ in nodes]):
            val = dict(zip(nodes, v))
            w = 1.
            for (s, _), x in zip(nodes, v):
                w *= self.w[s][x]
            if w and all(self.f[o[0] - 1][(o[-2], tuple(val[(s, o[1 + s])] for s in self.past[o[0] - 1]))] == o[-1] for o in ops):
                tot += w
        self.memo[ops] = tot
        return tot

    def dist(self):
        r = self.r
        A = np.zeros(tuple(r.out) + tuple(r.priv))
        for a in product(*[range(n) for n in r.out]):
            for x in product(*[range(n) for n in r.priv]):
                ops = []
                for p in range(r.nparties):
                    st = (x[p],) + tuple(a[q] for q in r.parents[p])
                    ops.append((p + 1,) + tuple(1 if r.past[p][s] else 0 for s in range(r.ns)) + (r.eff[p].index(st), a[p]))
                A[a + x] = self.moment(ops)
        return A


class QModel:
    """scenarios without intermediate latents: every quantum source is a pure state with
    one qubit per child, every measurement is projective; classical sources carry values"""

    def __init__(self, P, seed):
        self.r = r = Ref(P)
        assert not P.get("classical_intermediate_latents") and not P.get("nonclassical_intermediate_latents")
        rng = np.random.default_rng(seed)
        self.rng = rng
        self.children = [[p for p in range(r.nparties) if r.past[p][s]] for s in range(r.ns)]
        self.kc = [int(rng.integers(1, 3)) if c else 1 for c in r.classical]
        self.wc = [rng.dirichlet([1] * k) for k in self.kc]
        self.state = []
        for s in range(r.ns):
            if r.classical[s]:
                self.state.append(None)
                continue
            m = len(self.children[s])
            v = rng.normal(size=(2,) * m) + 1j * rng.normal(size=(2,) * m)
            if rng.random() < .4:
                v = np.zeros((2,) * m, complex)
                v[(0,) * m] = v[(1,) * m] = 1
            self.state.append(v / np.linalg.norm(v))
        self.meas = {}
        for p in range(r.nparties):
            qs = [s for s in range(r.ns) if r.past[p][s] and not r.classical[s]]
            cs = [s for s in range(r.ns) if r.past[p][s] and r.classical[s]]
            d = 2 ** len(qs)
            for x in range(len(r.eff[p])):
                for lam in product(*[range(self.kc[s]) for s in cs]):
                    m = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
                    q, _ = np.linalg.qr(m)
                    who = rng.integers(0, r.out[p], size=d)
                    if d >= r.out[p] and rng.random() < .7:
                        who[:r.out[p]] = np.arange(r.out[p])
                    for a in range(r.out[p]):
                        c = q[:, who == a]
                        self.meas[p, x, lam, a] = (c @ c.conj().T).reshape((2,) * (2 * len(qs)))
        self.memo = {}

    def moment(self, ops):
        """expectation of the ordered product of projectors (complex)"""
        r = self.r
        ops = tuple(map(tuple, ops))
        if ops in self.memo:
            return self.memo[ops]
        nodes = sorted({(s, o[1 + s]) for o in ops for s in range(r.ns) if o[1 + s]})
        qn = [n for n in nodes if not r.classical[n[0]]]
        cn = [n for n in nodes if r.classical[n[0]]]
        axes, psi = {}, np.ones((), complex)
        for (s, c) in qn:
            for p in self.children[s]:
                axes[(s, c, p)] = len(axes)
            psi = np.multiply.outer(psi, self.state[s])
        if psi.ndim > 14:
            return None
        tot = 0
        for lam in product(*[range(self.kc[s]) for s, _ in cn]):
            val = dict(zip(cn, lam))
            w = 1.
            for (s, _), v in zip(cn, lam):
                w *= self.wc[s][v]
            phi = psi
            for o in reversed(ops):
                p = o[0] - 1
                qs = [s for s in range(r.ns) if r.past[p][s] and not r.classical[s]]
                l = tuple(val[(s, o[1 + s])] for s in range(r.ns) if r.past[p][s] and r.classical[s])
                M = self.meas[p, o[-2], l, o[-1]]
                ax = [axes[(s, o[1 + s], p)] for s in qs]
                n = len(ax)
                phi = np.tensordot(M, phi, axes=(list(range(n, 2 * n)), ax))
                phi = np.moveaxis(phi, list(range(n)), ax)
            tot += w * np.vdot(psi, phi)
        self.memo[ops] = complex(tot)
        return self.memo[ops]

    def dist(self):
        r = self.r
        A = np.zeros(tuple(r.out) + tuple(r.priv))
        for a in product(*[range(n) for n in r.out]):
            for x in product(*[range(n) for n in r.priv]):
                ops = []
                for p in range(r.nparties):
                    st = (x[p],) + tuple(a[q] for q in r.parents[p])
                    ops.append((p + 1,) + tuple(1 if r.past[p][s] else 0 for s in range(r.ns)) + (r.eff[p].index(st), a[p]))
                A[a + x] = np.real(self.moment(ops))
        return A


def quantum_ok(P):
    r = Ref(P)
    if P.get("classical_intermediate_latents") or P.get("nonclassical_intermediate_latents"):
        return False
    n = sum(r.levels[s] * sum(r.past[p][s] for p in range(r.nparties)) for s in range(r.ns) if not r.classical[s])
    return n <= 12


def value(mon, model):
    """value of a compound moment under the model: product over its factors"""
    v = 1.
    for f in mon.factors:
        if f.is_one:
            continue
        if f.is_zero:
            return 0.
        v = v * model.moment([tuple(int(x) for x in o) for o in f.as_2d_array])
    return v
