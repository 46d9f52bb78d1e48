"""Instrumented samplers standing in for the device at the primitive boundary, and an independent model of what measuring on it gives.

Device (V1) and DeviceV2 run the circuits the interface submits, apply a readout-confusion matrix per *physical* qubit, optionally draw shots,
and record every call.  Measured predicts expectation values from a state vector, the confusion matrices and the mitigation settings."""
from __future__ import annotations

import numpy as np
from qiskit.primitives import BaseSamplerV1, BaseSamplerV2, SamplerResult
from qiskit.primitives.primitive_job import PrimitiveJob
from qiskit.result import QuasiDistribution
from qiskit_aer.primitives import Sampler as AerSampler


def confusion(rng, n, strength=0.2, symmetric=False):
    """One column-stochastic 2x2 matrix P(read|true) per physical qubit."""
    out = []
    for _ in range(n):
        a, b = rng.uniform(0.0, strength, 2)
        if symmetric:
            b = a
        out.append(np.array([[1 - a, b], [a, 1 - b]]))
    return out


def _apply(p, mats):
    """p over 2^n outcomes, clbit 0 least significant."""
    n = len(mats)
    t = p.reshape((2,) * n)
    for c, M in enumerate(mats):
        ax = n - 1 - c
        t = np.moveaxis(np.tensordot(M, t, axes=(1, ax)), 0, ax)
    return t.reshape(-1)


class _Core:
    def __init__(self, readout=None, sample=False, seed=0, gate=0.0):
        self.readout = readout
        self.gate = gate  # depolarisation per two-qubit gate
        self.sample = sample
        self.rng = np.random.default_rng(seed)
        self.calls = []  # one record per call: shots, circuits
        self._aer = AerSampler(run_options={"shots": None}, transpile_options={"optimization_level": 0})

    def probabilities(self, circuits, values):
        res = self._aer.run(list(circuits), parameter_values=[list(v) for v in values], shots=None).result().quasi_dists
        out = []
        for c, d in zip(circuits, res):
            n = c.num_clbits
            p = np.zeros(1 << n)
            for k, v in d.items():
                p[k] += v
            if self.gate:
                lam = (1 - self.gate) ** c.num_nonlocal_gates()
                p = lam * p + (1 - lam) / len(p)
            if self.readout is not None:
                mats = [np.eye(2)] * n
                for ins in c.data:
                    if ins.operation.name == "measure":
                        mats[c.find_bit(ins.clbits[0]).index] = self.readout[c.find_bit(ins.qubits[0]).index]
                p = _apply(p, mats)
            p = np.clip(p, 0, None)
            out.append(p / p.sum())
        return out

    def draw(self, p, shots):
        return self.rng.multinomial(shots, p)

    def total_shots(self):
        return sum(c["shots"] * c["circuits"] for c in self.calls if c["shots"] is not None)

    def total_circuits(self):
        return sum(c["circuits"] for c in self.calls)


class Device(BaseSamplerV1, _Core):
    def __init__(self, **kw):
        BaseSamplerV1.__init__(self)
        _Core.__init__(self, **kw)

    def _run(self, circuits, parameter_values, **opts):
        shots = opts.get("shots")
        self.calls.append({"shots": shots, "circuits": len(circuits)})
        ps = self.probabilities(circuits, parameter_values)
        dists = []
        for p in ps:
            if self.sample and shots is not None:
                p = self.draw(p, shots) / shots
            dists.append(QuasiDistribution({i: float(v) for i, v in enumerate(p) if v > 1e-16}))
        job = PrimitiveJob(lambda: SamplerResult(dists, [{} for _ in dists]))
        job._submit()
        return job


class DeviceV2(BaseSamplerV2, _Core):
    def __init__(self, backend=None, **kw):
        _Core.__init__(self, **kw)
        if backend is not None:
            self._backend = backend

    def run(self, pubs, *, shots=None):
        from qiskit.primitives import BitArray, DataBin, PrimitiveResult, SamplerPubResult
        pubs = list(pubs)
        self.calls.append({"shots": shots, "circuits": len(pubs)})
        ps = self.probabilities([p[0] for p in pubs], [np.ravel(p[1]) if len(p) > 1 and p[1] is not None else [] for p in pubs])
        res = []
        for (circ, *_), p in zip(pubs, ps):
            n = circ.num_clbits
            cnt = self.draw(p, shots)
            ba = BitArray.from_counts({int(i): int(v) for i, v in enumerate(cnt) if v}, num_bits=n)
            res.append(SamplerPubResult(DataBin(**{circ.cregs[0].name: ba}, shape=()), metadata={"shots": shots}))
        job = PrimitiveJob(lambda: PrimitiveResult(res))
        job._submit()
        return job


# ---------------------------------------------------------------- independent prediction

def pauli_terms(M, nq):
    """Pauli decomposition of a (sparse) matrix: {(xmask, zmask): complex coefficient}."""
    M = np.asarray(M.todense()) if hasattr(M, "todense") else np.asarray(M)
    dim = 1 << nq
    idx = np.arange(dim)
    out = {}
    for x in range(dim):
        d = M[idx ^ x, idx].astype(complex)
        if not np.any(np.abs(d) > 1e-14):
            continue
        w = d.copy()
        h = 1
        while h < dim:
            w = w.reshape(-1, 2, h)
            w = np.stack([w[:, 0] + w[:, 1], w[:, 0] - w[:, 1]], axis=1).reshape(-1)
            h *= 2
        w /= dim
        for z in np.nonzero(np.abs(w) > 1e-13)[0]:
            # X^x Z^z = prod over Y qubits of (X Z) = (-i Y), hence the coefficient of the Pauli string gets (-i)^{#Y}
            out[(x, int(z))] = w[z] * (-1j) ** bin(x & int(z)).count("1")
    return out


_H = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
_HSDG = _H @ np.diag([1, -1j])


def rotated(v, x, z, nq):
    t = np.asarray(v, complex).reshape((2,) * nq)
    for q in range(nq):
        if (x >> q) & 1:
            U = _HSDG if (z >> q) & 1 else _H
            ax = nq - 1 - q
            t = np.moveaxis(np.tensordot(U, t, axes=(1, ax)), 0, ax)
    return np.abs(t.reshape(-1)) ** 2


def signs(mask, nq):
    b = np.arange(1 << nq) & mask
    par = np.zeros(1 << nq, int)
    for q in range(nq):
        par ^= (b >> q) & 1
    return 1.0 - 2.0 * par


class Measured:
    """Expectation values as a device with the given confusion (per logical qubit) reports them after the chosen mitigation."""

    def __init__(self, enc, nelec, readout=None, correct=False, select=False, calibration=None):
        self.enc, self.nq = enc, enc.nq
        self.readout = readout
        self.correct = correct
        self.select = select
        self.cal = readout if calibration is None else calibration  # noise during the calibration of the correction
        n = enc.n
        na, nb = nelec
        lo = np.array([bin(int(o) & ((1 << n) - 1)).count("1") for o in enc.occ])
        hi = np.array([bin(int(o) >> n).count("1") for o in enc.occ])
        self.keep = np.zeros(1 << enc.nq, bool)
        self.keep[enc.q[(lo == na) & (hi == nb)]] = True

    def distribution(self, v, x, z):
        p = rotated(v, x, z, self.nq)
        if self.readout is not None:
            p = _apply(p, self.readout)
        if self.correct and self.cal is not None:
            p = _apply(p, [np.linalg.inv(M) for M in self.cal])
        if self.select and x == 0:
            p = np.where(self.keep, p, 0.0)
            p = p / p.sum()
        return p

    def pauli(self, v, x, z):
        return float(self.distribution(v, x, z) @ signs(x | z, self.nq))

    def value(self, v, terms):
        return float(sum(c * self.pauli(v, x, z) for (x, z), c in terms.items()).real)
