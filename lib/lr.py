"""Reference linear response: full-space vectors, double commutators evaluated from their definition (no repo code)."""
from __future__ import annotations

import itertools

import numpy as np
import scipy.linalg
import scipy.sparse as ss

from lib import gens
from lib import oracle as O

FORMS = ["naive", "projected", "selfconsistent", "statetransfer", "allprojected", "allselfconsistent", "allstatetransfer", "projected_statetransfer"]
_full = {}


def full_sector(norb, n):
    if (norb, n) not in _full:
        _full[norb, n] = O.Sector(norb, n, n)
    return _full[norb, n]


class Space:
    """Orbital partition: ni inactive, na active (ne active electrons), nv virtual; states of the whole molecule."""

    def __init__(self, ni, na, nv, ne):
        self.ni, self.na, self.nv, self.ne = ni, na, nv, ne
        self.norb = ni + na + nv
        self.nocc = ni + ne // 2
        self.sec = full_sector(self.norb, self.nocc)
        self.inactive, self.active, self.virtual = range(ni), range(ni, ni + na), range(ni + na, self.norb)
        self.occ, self.unocc = range(ni, self.nocc), range(self.nocc, ni + na)
        hf = sum(1 << (2 * self.norb - 1 - k) for k in range(2 * self.nocc))
        self.hf = np.zeros(self.sec.dim)
        self.hf[self.sec.index[hf]] = 1.0

    def embed(self, ci, dets):
        """Active-space vector to the full space."""
        v = np.zeros(self.sec.dim)
        core = sum(1 << (2 * self.norb - 1 - k) for k in range(2 * self.ni))
        for c, d in zip(ci, dets):
            v[self.sec.index[core | (int(d) << (2 * self.nv))]] = c
        return v

    def unitary(self, layout, thetas, ucc):
        Gs = [gens.generator(self.sec, t, i, self.ni, not ucc) for t, i in zip(layout.excitation_operator_type, layout.excitation_indices)]
        if ucc:
            return scipy.linalg.expm(sum((t * G for t, G in zip(thetas, Gs)), np.zeros((self.sec.dim,) * 2)))
        U = np.eye(self.sec.dim)
        for t, G in zip(thetas, Gs):
            U = scipy.linalg.expm(t * G) @ U
        return U

    def op(self, terms):
        M = ss.csr_matrix((self.sec.dim, self.sec.dim))
        for s, c in terms:
            M = M + c * self.sec.string(s)
        return M.tocsr()

    def q_pairs(self, hf_like):
        out = []
        for p in range(self.norb):
            for q in range(p + 1, self.norb):
                A = lambda x: x in self.active  # noqa: E731
                if hf_like:
                    ok = (p in self.inactive and q in self.virtual) or (p in self.inactive and q in self.unocc) or (p in self.occ and q in self.virtual)
                else:
                    ok = not (A(p) and A(q)) and not (p in self.inactive and q in self.inactive) and not (p in self.virtual and q in self.virtual)
                if ok:
                    out.append((p, q))
        return out

    def q_op(self, p, q):
        return (self.sec.E(q, p) * 2**-0.5).tocsr()

    def G_list(self, exc):
        """Excitations of the manifold as (label, operator), independent enumeration (order: as generated here)."""
        out = []
        exc = exc.lower()
        if "s" in exc:
            for i in self.occ:
                for a in self.unocc:
                    out.append((("s", i, a), self.op(gens.excitation("sa_single", (i, a), 0, False))))
        if "d" in exc:
            for i, j in itertools.combinations_with_replacement(self.occ, 2):
                for a, b in itertools.combinations_with_replacement(self.unocc, 2):
                    if i == j and a == b:
                        cases = [1]
                    elif i == j:
                        cases = [2]
                    elif a == b:
                        cases = [3]
                    else:
                        cases = [4, 5]
                    for c in cases:
                        out.append((("d", c, i, j, a, b), self.op(gens.excitation(f"sa_double_{c}", (i, j, a, b), 0, False))))
        for ch, k, name in (("t", 3, "triple"), ("q", 4, "quadruple"), ("5", 5, "quintuple"), ("6", 6, "sextuple")):
            if ch in exc:
                so = [2 * x + s for x in self.occ for s in (0, 1)]
                su = [2 * x + s for x in self.unocc for s in (0, 1)]
                for I in itertools.combinations(so, k):
                    for A in itertools.combinations(su, k):
                        if sum(x % 2 for x in I) == sum(x % 2 for x in A):
                            out.append(((ch,) + I + A, self.op(gens.excitation(name, I + A, 0, False))))
        return out


class R:
    """Excitation operator of a formulation, given by its action and the action of its adjoint."""

    def __init__(self, f, fd):
        self.f, self.fd = f, fd


def operators(space, form, exc, U, state, Gs=None):
    """[(label, R)] orbital part first; U full-space unitary."""
    csf = space.hf
    hf_like = form in ("allselfconsistent", "allstatetransfer")
    qs = [(("k", p, q), space.q_op(p, q)) for p, q in space.q_pairs(hf_like)]
    Gs = space.G_list(exc) if Gs is None else Gs

    def plain(X):
        return R(lambda v: X @ v, lambda v: X.T @ v)

    def proj(X):
        a = X @ state
        return R(lambda v: a * (state @ v), lambda v: state * (a @ v))

    def sc(X):
        return R(lambda v: U @ (X @ (U.T @ v)), lambda v: U @ (X.T @ (U.T @ v)))

    def st(X):
        a = U @ (X @ csf)
        return R(lambda v: a * (state @ v), lambda v: state * (a @ v))

    qf = {"naive": plain, "projected": plain, "selfconsistent": plain, "statetransfer": plain, "allprojected": proj, "allselfconsistent": sc, "allstatetransfer": st, "projected_statetransfer": proj}[form]
    gf = {"naive": plain, "projected": proj, "selfconsistent": sc, "statetransfer": st, "allprojected": proj, "allselfconsistent": sc, "allstatetransfer": st, "projected_statetransfer": st}[form]
    return [(l, qf(X)) for l, X in qs], [(l, gf(X)) for l, X in Gs]


def matrices(Rs, H, s):
    """A, B, Sigma, Delta from symmetrised double commutators."""
    n = len(Rs)
    h = H @ s
    a = np.array([r.f(s) for r in Rs]).reshape(n, -1)
    b = np.array([r.fd(s) for r in Rs]).reshape(n, -1)
    ah = np.array([r.f(h) for r in Rs]).reshape(n, -1)
    bh = np.array([r.fd(h) for r in Rs]).reshape(n, -1)
    Ha = (H @ a.T).T
    Hb = (H @ b.T).T

    def dc(X, Xd, Xh, Xdh, HX, HXd):
        # sum over the symmetrised [R_I^+, H, X_J]
        M = a @ HX.T + b @ HXd.T  # R+HX + X H R+   (b_J^X = X^+|0> = Xd)
        M -= 0.5 * (a @ Xh.T + b @ Xdh.T + ah @ X.T + bh @ Xd.T)
        return M

    A = dc(a, b, ah, bh, Ha, Hb)
    B = dc(b, a, bh, ah, Hb, Ha)
    S = a @ a.T - b @ b.T
    D = a @ b.T - b @ a.T
    return A, B, S, D


def gradient(Rs, H, s):
    """<[H, R]>"""
    h = H @ s
    return np.array([h @ r.f(s) - r.fd(s) @ h for r in Rs])


def spectrum(A, B, S, D):
    """Positive frequencies and normalised vectors (Z,Y) with E2 x = w S2 x; E2 must be positive definite."""
    n = len(A)
    E2 = np.block([[A, B], [B, A]])
    S2 = np.block([[S, D], [-D, -S]])
    L = np.linalg.cholesky((E2 + E2.T) / 2)
    M = scipy.linalg.solve_triangular(L, scipy.linalg.solve_triangular(L, S2, lower=True).T, lower=True).T
    w, x = np.linalg.eigh((M + M.T) / 2)
    pos = w > 1e-10
    om = 1 / w[pos]
    v = scipy.linalg.solve_triangular(L.T, x[:, pos], lower=False)
    o = np.argsort(om)
    om, v = om[o], v[:, o]
    nr = np.einsum("ik,ij,jk->k", v, S2, v)
    return om, v / np.sqrt(nr)


def moments(Rs, v, mus, s):
    """t_k = <[mu, sum Z R^+ + Y R]> per Cartesian component."""
    n = len(Rs)
    out = np.zeros((v.shape[1], len(mus)))
    for c, mu in enumerate(mus):
        ms = mu @ s
        up = np.array([ms @ r.f(s) - r.fd(s) @ ms for r in Rs])  # <[mu, R]>
        out[:, c] = v[n:].T @ up - v[:n].T @ up  # <[mu,R+]> = -<[mu,R]> for real states
    return out


def groups(w, tol=1e-5):
    out = [[0]] if len(w) else []
    for k in range(1, len(w)):
        if w[k] - w[k - 1] < tol:
            out[-1].append(k)
        else:
            out.append([k])
    return out
