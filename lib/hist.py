"""Random histories on wave function objects: model of what the object must hold, driven by the operations performed."""
from __future__ import annotations

import contextlib
import io
import os
import warnings

import numpy as np
import scipy.linalg

from lib import oracle as O


@contextlib.contextmanager
def quiet():
    """Silence Python- and Fortran-level chatter of the optimisers."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()):
            yield


def rotate(C, idx, delta):
    n = C.shape[1]
    k = np.zeros((n, n))
    for (p, q), v in zip(idx, delta):
        k[p, q] += v
        k[q, p] -= v
    return C @ scipy.linalg.expm(-k)


def ref_energy(mol, C, ci, dets, ninact, nact, norb=None):
    """Full-space energy of an active-space CI vector in orbitals C (independent of the code under test)."""
    h, g = O.transform(C, mol.h, mol.g)
    hc, ga, ecore = active_integrals(h, g, ninact, nact)
    return ecore + float(ci @ (act_hamiltonian(hc, ga, dets) @ ci))


def active_integrals(h, g, ni, na):
    I = slice(0, ni)
    A = slice(ni, ni + na)
    ecore = 2 * np.trace(h[I, I]) + 2 * np.einsum("iijj->", g[I, I, I, I]) - np.einsum("ijji->", g[I, I, I, I])
    hc = h[A, A] + 2 * np.einsum("pqii->pq", g[A, A, I, I]) - np.einsum("piiq->pq", g[A, I, I, A])
    return hc, g[A, A, A, A], float(ecore)


_secs = {}


def act_sector(dets, nact):
    key = (tuple(int(d) for d in dets), nact)
    if key not in _secs:
        _secs[key] = O.Sector(nact, 0, 0, dets=key[0])
    return _secs[key]


def act_hamiltonian(hc, ga, dets):
    return act_sector(dets, hc.shape[0]).hamiltonian(hc, ga)


def random_list(rng, n, scale):
    return [float(x) for x in rng.uniform(-scale, scale, n)]


class Capture:
    """Stand-in for scipy.optimize.minimize: records what the code under test hands to the optimiser and returns at once.

    probe(fun, x0, jac, method) may evaluate the functions; the returned point is x0 (or the value probe returns)."""

    def __init__(self, probe):
        self.probe = probe
        self.calls = 0

    def __enter__(self):
        import scipy.optimize
        self._real = scipy.optimize.minimize
        cap = self

        def fake(fun, x0, args=(), method=None, jac=None, **kw):
            cap.calls += 1
            x0 = np.array(x0, dtype=float)
            r = cap.probe(fun, x0.copy(), jac, method)
            x = x0 if r is None else np.array(r, dtype=float)
            return scipy.optimize.OptimizeResult(x=x, fun=float(np.mean(fun(x.copy()))), success=True, message="captured", nit=1)

        scipy.optimize.minimize = fake
        return self

    def __exit__(self, *a):
        import scipy.optimize
        scipy.optimize.minimize = self._real


def numgrad(fun, x, i, h=1e-3):
    """Fourth-order central difference along coordinate i (visits collinear points only, then returns to x)."""
    def f(t):
        y = x.copy()
        y[i] += t
        return float(np.mean(fun(y)))
    a1, b1, a2, b2, a3, b3 = f(h), f(-h), f(2 * h), f(-2 * h), f(3 * h), f(-3 * h)
    fun(x.copy())
    return (45 * (a1 - b1) - 9 * (a2 - b2) + (a3 - b3)) / (60 * h)


class Model:
    """What a (state-averaged or single-state) wave function object must hold: orbitals, parameters, and everything derived from them."""

    def __init__(self, wf, mol, C, layout=None, refs=None, dets=None):
        from lib import gens
        self.mol, self.C = mol, np.array(C)
        self.kappa = np.zeros(len(wf.kappa))
        self.thetas = np.zeros(len(wf.thetas))
        self.ucc = hasattr(wf, "ucc_layout")
        self.layout = layout or (wf.ucc_layout if self.ucc else wf.ups_layout)
        self.dets = [int(d) for d in (wf.ci_info.idx2det if dets is None else dets)]
        self.ni, self.na = wf.num_inactive_orbs, wf.num_active_orbs
        self.kidx = [tuple(int(v) for v in x) for x in wf.kappa_idx]
        self.sec = act_sector(self.dets, self.na)
        self.refs = np.atleast_2d(np.array(wf.csf_coeffs if refs is None else refs, dtype=float)).copy()
        self.G = [gens.generator(self.sec, t, i, 0, not self.ucc) for t, i in zip(self.layout.excitation_operator_type, self.layout.excitation_indices)]
        self._states = None

    def set_thetas(self, t):
        self.thetas = np.array(t, dtype=float)
        self._states = None

    def set_kappa(self, k):
        k = np.array(k, dtype=float)
        self.C = rotate(self.C, self.kidx, k - self.kappa)
        self.kappa = k

    @property
    def states(self):
        if self._states is None:
            if self.ucc:
                T = sum((t * G for t, G in zip(self.thetas, self.G)), np.zeros((self.sec.dim,) * 2))
                self._states = self.refs @ scipy.linalg.expm(T).T
            else:
                v = self.refs
                for t, G in zip(self.thetas, self.G):
                    v = v @ scipy.linalg.expm(t * G).T
                self._states = v
        return self._states

    @property
    def state(self):
        return self.states[0]

    def hamiltonian(self, C=None):
        h, g = O.transform(self.C if C is None else C, self.mol.h, self.mol.g)
        hc, ga, e = active_integrals(h, g, self.ni, self.na)
        H = act_hamiltonian(hc, ga, self.dets)
        import scipy.sparse as ss
        return H + e * ss.identity(H.shape[0])

    def state_matrix(self):
        return self.states @ (self.hamiltonian() @ self.states.T)

    def energy(self):
        """Energy, or plain mean of the state energies."""
        return float(np.trace(self.state_matrix())) / len(self.refs)

    def rdm1(self):
        return sum(O.rdm1(self.sec, s, s) for s in self.states) / len(self.refs)

    def rdm2(self):
        return sum(O.rdm2(self.sec, s, s) for s in self.states) / len(self.refs)

    def onebody_matrix(self, ao):
        mo = self.C.T @ ao @ self.C
        A = slice(self.ni, self.ni + self.na)
        X = self.sec.one_body(mo[A, A])
        core = 2 * np.trace(mo[: self.ni, : self.ni])
        return self.states @ (X @ self.states.T) + core * (self.states @ self.states.T)

    def at(self, kappa, thetas):
        """Energy of another point without changing the model."""
        C, k, t, s = self.C, self.kappa, self.thetas, self._states
        if kappa is not None:
            self.set_kappa(kappa)
        if thetas is not None:
            self.set_thetas(thetas)
        e = self.energy()
        self.C, self.kappa, self.thetas, self._states = C, k, t, s
        return e


def random_sa_states(rng, dets, norb, n, kind="random"):
    """n orthonormal reference states as (coefficients, occupation strings) plus the matrix over dets."""
    D = len(dets)
    n = min(n, D)
    M = np.zeros((n, D))
    if kind == "dets":
        for i, j in enumerate(rng.choice(D, n, replace=False)):
            M[i, j] = 1.0
    elif kind == "pairs":
        free = list(rng.permutation(D))
        for i in range(n):
            if len(free) - (n - i) >= 1 and rng.random() < 0.7:
                a, b = free.pop(), free.pop()
                th = rng.uniform(0, np.pi)
                M[i, a], M[i, b] = np.cos(th), np.sin(th)
            else:
                M[i, free.pop()] = rng.choice([-1.0, 1.0])
    else:
        sub = rng.choice(D, min(D, n + 2), replace=False)
        q = np.linalg.qr(rng.normal(size=(len(sub), len(sub))))[0]
        for i in range(n):
            M[i, sub] = q[i]
    co, st = [], []
    for i in range(n):
        js = [j for j in rng.permutation(D) if abs(M[i, j]) > 0]
        co.append([float(M[i, j]) for j in js])
        st.append([format(int(dets[j]), f"0{2 * norb}b") for j in js])
    return (co, st), M
