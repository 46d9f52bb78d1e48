"""Reference generators of excitation operators, built from the harness's own ladder strings."""
from __future__ import annotations

import numpy as np
import scipy.linalg

RANK = {"single": 1, "double": 2, "triple": 3, "quadruple": 4, "quintuple": 5, "sextuple": 6}


def E_dict(p, q, off=0):
    return [(((2 * (p + off), True), (2 * (q + off), False)), 1.0), (((2 * (p + off) + 1, True), (2 * (q + off) + 1, False)), 1.0)]


def mul(A, B, f=1.0):
    return [(a + b, f * ca * cb) for a, ca in A for b, cb in B]


def excitation(exc_type, idx, off=0, ups=True):
    """List of (string, coeff) of the excitation operator T (not anti-Hermitised)."""
    if exc_type in RANK:
        k = RANK[exc_type]
        i, a = idx[:k], idx[k:]
        return [(tuple((x + 2 * off, True) for x in a) + tuple((x + 2 * off, False) for x in i[::-1]), 1.0)]
    if exc_type == "sa_single":
        i, a = idx
        f = 1.0 if ups else 2**-0.5
        return [(s, f * c) for s, c in E_dict(a, i, off)]
    if exc_type.startswith("sa_double_"):
        case = int(exc_type[-1])
        i, j, a, b = idx
        X = mul(E_dict(a, i, off), E_dict(b, j, off))
        Y = mul(E_dict(a, j, off), E_dict(b, i, off))
        if case == 5:
            f = 1 / (2 * 3**0.5)
            return [(s, f * c) for s, c in X] + [(s, -f * c) for s, c in Y]
        f = 1 / (2 * ((1 + (a == b)) * (1 + (i == j))) ** 0.5)
        return [(s, f * c) for s, c in X] + [(s, f * c) for s, c in Y]
    raise KeyError(exc_type)


def generator(sec, exc_type, idx, off=0, ups=True):
    """Dense anti-Hermitian generator in the sector."""
    M = np.zeros((sec.dim, sec.dim))
    for s, c in excitation(exc_type, idx, off, ups):
        M += c * sec.string(s).toarray()
    return M - M.T


def ups_state(sec, layout, thetas, state, off=0):
    """Product of exponentials applied to state: first entry acts first."""
    out = np.array(state, dtype=float)
    for t, idx, th in zip(layout.excitation_operator_type, layout.excitation_indices, thetas):
        out = scipy.linalg.expm(th * generator(sec, t, idx, off)) @ out
    return out


def random_excitation(rng, norb, types, spin_conserving=True):
    """Random excitation of one of the given types on norb spatial orbitals or None."""
    t = str(rng.choice(types))
    if t == "sa_single":
        if norb < 2:
            return None
        i, a = (int(x) for x in rng.choice(norb, 2, replace=False))
        return t, (i, a)
    if t.startswith("sa_double_"):
        case = int(t[-1])
        need = {1: 2, 2: 3, 3: 3, 4: 4, 5: 4}[case]
        if norb < need:
            return None
        x = [int(v) for v in rng.choice(norb, need, replace=False)]
        return t, {1: lambda: (x[0], x[0], x[1], x[1]), 2: lambda: (x[0], x[0], x[1], x[2]), 3: lambda: (x[0], x[1], x[2], x[2]),
                   4: lambda: (x[0], x[1], x[2], x[3]), 5: lambda: (x[0], x[1], x[2], x[3])}[case]()
    k = RANK[t]
    if 2 * k > 2 * norb:
        return None
    for _ in range(200):
        x = [int(v) for v in rng.choice(2 * norb, 2 * k, replace=False)]
        if sum(v % 2 for v in x[:k]) == sum(v % 2 for v in x[k:]):
            return t, tuple(x)
    return None
