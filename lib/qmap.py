"""Independent fermion-to-qubit encodings: bit-level ladder operators in the spin-blocked order, Jordan-Wigner, parity and tapered parity."""
from __future__ import annotations

import numpy as np
import scipy.sparse as ss

JW, PAR, TAP = "jw", "parity", "tapered"
_cache = {}


def f2q(k, n):
    return k // 2 + (k % 2) * n


def string(s, n):
    """Sparse matrix of a ladder string (interleaved spin-orbital indices) on 2n qubits, Jordan-Wigner in blocked order, qubit 0 least significant."""
    key = (s, n)
    if key in _cache:
        return _cache[key]
    dim = 1 << (2 * n)
    x = np.arange(dim)
    cur = x.copy()
    sg = np.ones(dim)
    ok = np.ones(dim, bool)
    for k, dag in reversed(s):
        p = f2q(k, n)
        occ = (cur >> p) & 1
        ok &= occ == (0 if dag else 1)
        low = cur & ((1 << p) - 1)
        par = np.zeros(dim, int)
        for b in range(p):
            par ^= (low >> b) & 1
        sg = np.where(par == 1, -sg, sg)
        cur = cur ^ (1 << p)
    M = ss.csr_matrix((sg[ok], (cur[ok], x[ok])), shape=(dim, dim))
    if len(_cache) < 4000:
        _cache[key] = M
    return M


def op(terms, n):
    M = ss.csr_matrix((1 << (2 * n),) * 2)
    for s, c in terms:
        M = M + c * string(tuple(s), n)
    return M.tocsr()


def encode(x, n):
    """Parity encoding of occupation integers."""
    x = np.asarray(x)
    out = np.zeros_like(x)
    run = np.zeros_like(x)
    for b in range(2 * n):
        run = run ^ ((x >> b) & 1)
        out = out | (run << b)
    return out


def taper(y, n):
    """Remove qubits n-1 and 2n-1."""
    y = np.asarray(y)
    low = y & ((1 << (n - 1)) - 1)
    high = (y >> n) & ((1 << (n - 1)) - 1)
    return low | (high << (n - 1))


class Enc:
    """rows: occupation integers kept, qubit index of each; for the tapered encoding only one parity sector exists."""

    def __init__(self, kind, n, nelec=None):
        self.kind, self.n = kind, n
        x = np.arange(1 << (2 * n))
        if kind == JW:
            self.occ, self.q, self.nq = x, x, 2 * n
        elif kind == PAR:
            self.occ, self.q, self.nq = x, encode(x, n), 2 * n
        else:
            na, nb = nelec
            a = np.array([bin(int(v) & ((1 << n) - 1)).count("1") % 2 for v in x])
            t = np.array([bin(int(v)).count("1") % 2 for v in x])
            keep = (a == na % 2) & (t == (na + nb) % 2)
            self.occ = x[keep]
            self.q, self.nq = taper(encode(self.occ, n), n), 2 * n - 2

    def matrix(self, M):
        """Qubit matrix (dense) of a Jordan-Wigner matrix."""
        A = M.tocsr()[self.occ][:, self.occ].toarray()
        out = np.zeros((1 << self.nq,) * 2)
        out[np.ix_(self.q, self.q)] = A
        return out

    def sparse(self, M):
        A = M.tocsr()[self.occ][:, self.occ].tocoo()
        return ss.csr_matrix((A.data, (self.q[A.row], self.q[A.col])), shape=(1 << self.nq,) * 2)

    def state(self, ci, dets):
        """Qubit vector of a CI vector over interleaved (big-endian) determinants."""
        n = self.n
        pos = {int(o): int(q) for o, q in zip(self.occ, self.q)}
        v = np.zeros(1 << self.nq)
        for c, d in zip(ci, dets):
            order = [f2q(k, n) for k in range(2 * n) if (int(d) >> (2 * n - 1 - k)) & 1]
            inv = sum(1 for i in range(len(order)) for j in range(i) if order[j] > order[i])
            v[pos[sum(1 << b for b in order)]] += c * (-1) ** inv
        return v
