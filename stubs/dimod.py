"""dimod stand-in: BinaryQuadraticModel over a {(u, v): bias} mapping (self loops are linear terms) and an exact solver."""
import itertools

import numpy as np

BINARY = "BINARY"
SPIN = "SPIN"


class BinaryQuadraticModel:
    def __init__(self, linear, quadratic, offset=0.0, vartype=BINARY):
        if isinstance(offset, str):
            offset, vartype = 0.0, offset
        if vartype != BINARY:
            raise ValueError("only BINARY models are supported")
        self.variables = []
        self._index = {}
        self.linear = {}
        self.quadratic = {}
        self.offset = float(offset)
        for v, b in dict(linear).items():
            self._var(v)
            self.linear[v] += float(b)
        for (u, v), b in dict(quadratic).items():
            self._var(u)
            self._var(v)
            if u == v:
                self.linear[u] += float(b)
            else:
                k = (u, v) if (u, v) in self.quadratic or (v, u) not in self.quadratic else (v, u)
                self.quadratic[k] = self.quadratic.get(k, 0.0) + float(b)

    @classmethod
    def from_qubo(cls, Q, offset=0.0):
        return cls({}, Q, offset, BINARY)

    def add_linear(self, v, bias):
        self._var(v)
        self.linear[v] += float(bias)

    add_variable = add_linear

    def add_quadratic(self, u, v, bias):
        self._var(u)
        self._var(v)
        k = (u, v) if (u, v) in self.quadratic or (v, u) not in self.quadratic else (v, u)
        self.quadratic[k] = self.quadratic.get(k, 0.0) + float(bias)

    add_interaction = add_quadratic

    def _var(self, v):
        if v not in self._index:
            self._index[v] = len(self.variables)
            self.variables.append(v)
            self.linear[v] = 0.0

    def exact(self):
        """All samples sorted by energy (stable)."""
        n = len(self.variables)
        if n > 18:
            raise ValueError("too many variables for the exact stand-in")
        lin = np.array([self.linear[v] for v in self.variables])
        Q = np.zeros((n, n))
        for (u, v), b in self.quadratic.items():
            Q[self._index[u], self._index[v]] += b
        S = np.array(list(itertools.product([0, 1], repeat=n)), dtype=np.int8).reshape(-1, n)
        F = S.astype(np.float64)
        E = F @ lin + np.einsum("ij,jk,ik->i", F, Q, F) + self.offset
        order = np.argsort(E, kind="stable")
        return S[order], E[order]


class _Row:
    def __init__(self, sample, energy):
        self.sample, self.energy = sample, energy


class _Record:
    def __init__(self, sample, energy):
        self.sample, self.energy = sample, energy


class SampleSet:
    def __init__(self, bqm, S, E):
        self._v = list(bqm.variables)
        self.record = _Record(S, E)

    def samples(self):
        return iter([dict(zip(self._v, map(int, s))) for s in self.record.sample[:1]])

    def data(self):
        return iter([_Row(dict(zip(self._v, map(int, s))), e) for s, e in zip(self.record.sample[:1], self.record.energy[:1])])

    @property
    def first(self):
        return next(self.data())


class ExactSolver:
    def sample(self, bqm, **kw):
        return SampleSet(bqm, *bqm.exact())
