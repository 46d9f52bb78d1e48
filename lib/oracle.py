"""Independent dense/sparse second-quantisation oracle (own Jordan-Wigner construction, no repo code)."""
from __future__ import annotations

import functools
import itertools

import numpy as np
import scipy.linalg
import scipy.sparse as ss


@functools.lru_cache(maxsize=None)
def ladder(nso: int):
    """Annihilation operators on the 2**nso Fock space; bit of spin orbital p is (nso-1-p)."""
    dim = 2**nso
    idx = np.arange(dim)
    ops = []
    for p in range(nso):
        occ = (idx >> (nso - 1 - p)) & 1
        cols = idx[occ == 1]
        rows = cols ^ (1 << (nso - 1 - p))
        before = cols >> (nso - p)  # bits of orbitals < p
        par = np.array([bin(int(b)).count("1") & 1 for b in before])
        ops.append(ss.csr_matrix(((-1.0) ** par, (rows, cols)), shape=(dim, dim)))
    return ops


@functools.lru_cache(maxsize=None)
def ladder_d(nso: int):
    return [a.T.tocsr() for a in ladder(nso)]


def string_matrix(string, nso):
    m = ss.identity(2**nso, format="csr")
    for p, dag in string:
        m = m @ (ladder_d(nso)[p] if dag else ladder(nso)[p])
    return m


def op_matrix(opdict, nso):
    """Matrix of a dict {((idx, dagger), ...): coeff}."""
    m = ss.csr_matrix((2**nso, 2**nso))
    for k, c in opdict.items():
        m = m + c * string_matrix(k, nso)
    return m.tocsr()


def fock_E(p, q, nso):
    c, a = ladder_d(nso), ladder(nso)
    return c[2 * p] @ a[2 * q] + c[2 * p + 1] @ a[2 * q + 1]


def sector(norb, na, nb):
    """All determinant integers of the (na, nb) sector, interleaved alpha/beta, orbital 0 leftmost."""
    nso = 2 * norb
    out = []
    for A in itertools.combinations(range(norb), na):
        for B in itertools.combinations(range(norb), nb):
            d = 0
            for p in A:
                d |= 1 << (nso - 1 - 2 * p)
            for p in B:
                d |= 1 << (nso - 1 - (2 * p + 1))
            out.append(d)
    return sorted(out)


class Sector:
    """Sector-restricted operators for norb orbitals; basis = list of determinant integers in a given order."""

    def __init__(self, norb, na, nb, dets=None):
        self.norb, self.na, self.nb = norb, na, nb
        self.nso = 2 * norb
        self.dets = np.array(sector(norb, na, nb) if dets is None else list(dets), dtype=np.int64)
        self.dim = len(self.dets)
        self.index = {int(d): i for i, d in enumerate(self.dets)}
        self._E = {}
        self._x = {}

    def excite(self, p, q):
        """a^dagger_p a_q for spin orbitals p, q of the same spin."""
        if (p, q) in self._x:
            return self._x[p, q]
        nso = self.nso
        d = self.dets
        bp, bq = nso - 1 - p, nso - 1 - q
        ok = ((d >> bq) & 1) == 1
        src = np.nonzero(ok)[0]
        d1 = d[src]
        s1 = _parity(d1 >> (nso - q))
        d2 = d1 ^ (1 << bq)
        ok2 = ((d2 >> bp) & 1) == 0
        src, d2, s1 = src[ok2], d2[ok2], s1[ok2]
        s2 = _parity(d2 >> (nso - p))
        d3 = d2 ^ (1 << bp)
        rows = np.array([self.index[int(x)] for x in d3], dtype=int)
        m = ss.csr_matrix(((-1.0) ** (s1 + s2), (rows, src)), shape=(self.dim, self.dim))
        self._x[p, q] = m
        return m

    def E(self, p, q):
        if (p, q) not in self._E:
            self._E[p, q] = (self.excite(2 * p, 2 * q) + self.excite(2 * p + 1, 2 * q + 1)).tocsr()
        return self._E[p, q]

    def hamiltonian(self, h, g):
        """H = sum h_pq E_pq + 1/2 sum g_pqrs (E_pq E_rs - d_qr E_ps), chemists' notation."""
        n = self.norb
        H = ss.csr_matrix((self.dim, self.dim))
        for p in range(n):
            for q in range(n):
                heff = h[p, q] - 0.5 * np.einsum("rr->", g[p, :, :, q])
                if abs(heff) > 1e-15:
                    H = H + heff * self.E(p, q)
        for p in range(n):
            for q in range(n):
                X = ss.csr_matrix((self.dim, self.dim))
                for r in range(n):
                    for s in range(n):
                        if abs(g[p, q, r, s]) > 1e-15:
                            X = X + g[p, q, r, s] * self.E(r, s)
                H = H + 0.5 * (self.E(p, q) @ X)
        return H.tocsr()

    def one_body(self, m):
        n = self.norb
        H = ss.csr_matrix((self.dim, self.dim))
        for p in range(n):
            for q in range(n):
                if abs(m[p, q]) > 1e-15:
                    H = H + m[p, q] * self.E(p, q)
        return H.tocsr()

    def S2(self):
        """S^2 = S-S+ + Sz(Sz+1) built from sector operators: S-S+ = sum_pq b+_p a_p a+_q b_q."""
        n = self.norb
        sz = 0.5 * (self.na - self.nb)
        # b+_p a_p a+_q b_q = b+_p b_q a_p a+_q  = b+_p b_q (d_pq - a+_q a_p)
        S = ss.csr_matrix((self.dim, self.dim))
        for p in range(n):
            S = S + self.excite(2 * p + 1, 2 * p + 1)
            for q in range(n):
                S = S - self.excite(2 * p + 1, 2 * q + 1) @ self.excite(2 * q, 2 * p)
        return (S + sz * (sz + 1) * ss.identity(self.dim)).tocsr()

    def string(self, string):
        """Matrix of a number- and Sz-conserving ladder string in this sector (any order)."""
        out_r, out_c, out_v = [], [], []
        for i, d in enumerate(self.dets):
            d = int(d)
            s = 1
            ok = True
            for p, dag in reversed(string):
                b = self.nso - 1 - p
                occ = (d >> b) & 1
                if occ == (1 if dag else 0):
                    ok = False
                    break
                if bin(d >> (b + 1)).count("1") & 1:
                    s = -s
                d ^= 1 << b
            if ok and d in self.index:
                out_r.append(self.index[d])
                out_c.append(i)
                out_v.append(s)
        return ss.csr_matrix((np.array(out_v, float), (out_r, out_c)), shape=(self.dim, self.dim))

    def op(self, opdict):
        m = ss.csr_matrix((self.dim, self.dim))
        for k, c in opdict.items():
            m = m + c * self.string(k)
        return m.tocsr()


def _parity(x):
    x = np.array(x, dtype=np.int64).copy()
    par = np.zeros(x.shape, dtype=int)
    while np.any(x):
        par ^= (x & 1).astype(int)
        x >>= 1
    return par


def embed_active(ci, act_dets, norb, n_inact, n_act, full: Sector):
    """Full-space vector of an active-space CI vector with the inactive orbitals doubly occupied."""
    nvirt = norb - n_inact - n_act
    v = np.zeros(full.dim)
    head = (1 << (2 * n_inact)) - 1
    for c, d in zip(ci, act_dets):
        D = (head << (2 * (n_act + nvirt))) | (int(d) << (2 * nvirt))
        v[full.index[D]] = c
    return v


def rdm1(sec: Sector, bra, ket):
    n = sec.norb
    out = np.zeros((n, n))
    for p in range(n):
        for q in range(n):
            out[p, q] = bra @ (sec.E(p, q) @ ket)
    return out


def rdm2(sec: Sector, bra, ket):
    """<bra| E_pq E_rs - d_qr E_ps |ket>."""
    n = sec.norb
    right = {}
    for r in range(n):
        for s in range(n):
            right[r, s] = sec.E(r, s) @ ket
    left = {}
    for p in range(n):
        for q in range(n):
            left[p, q] = sec.E(p, q).T @ bra
    d1 = rdm1(sec, bra, ket)
    out = np.zeros((n,) * 4)
    for p in range(n):
        for q in range(n):
            for r in range(n):
                for s in range(n):
                    out[p, q, r, s] = left[p, q] @ right[r, s]
                    if q == r:
                        out[p, q, r, s] -= d1[p, s]
    return out


def transform(c, h, g):
    hm = c.T @ h @ c
    gm = np.einsum("ai,abcd->ibcd", c, g, optimize=True)
    gm = np.einsum("bj,ibcd->ijcd", c, gm, optimize=True)
    gm = np.einsum("ck,ijcd->ijkd", c, gm, optimize=True)
    gm = np.einsum("dl,ijkd->ijkl", c, gm, optimize=True)
    return hm, gm


def random_integrals(rng, n, scale=1.0):
    """Random h (symmetric) and g with the full 8-fold symmetry."""
    h = rng.normal(size=(n, n))
    h = scale * (h + h.T) / 2
    npair = n * (n + 1) // 2
    G = rng.normal(size=(npair, npair))
    G = scale * (G + G.T) / 2
    pi = {}
    k = 0
    for p in range(n):
        for q in range(p + 1):
            pi[p, q] = pi[q, p] = k
            k += 1
    g = np.zeros((n,) * 4)
    for p, q, r, s in itertools.product(range(n), repeat=4):
        g[p, q, r, s] = G[pi[p, q], pi[r, s]]
    return h, g


def random_orthogonal(rng, n):
    q, r = np.linalg.qr(rng.normal(size=(n, n)))
    return q * np.sign(np.diag(r))


def random_mo(rng, S, mix=None):
    w, v = np.linalg.eigh(S)
    x = v @ np.diag(w**-0.5) @ v.T
    n = S.shape[0]
    if mix is None:
        return x @ random_orthogonal(rng, n)
    k = rng.normal(size=(n, n)) * mix
    return x @ scipy.linalg.expm(k - k.T)
