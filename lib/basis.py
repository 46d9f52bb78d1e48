"""Own reader of the shipped basis-set files and PySCF twins of SlowQuant molecules (Cartesian functions, each normalised to one)."""
from __future__ import annotations

import functools
import glob
import os

import numpy as np

DIR = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "slowquant", "molecule", "basisset")
ANG = 1.889725989


def names():
    return sorted(os.path.basename(f)[: -len(".basis")].replace("_st_", "*") for f in glob.glob(os.path.join(DIR, "*.basis")))


@functools.lru_cache(maxsize=None)
def table(basis):
    """element -> list of [l, [exponent, coefficient], ...] in file order (turbomole format)."""
    out, cur, shell = {}, None, None
    with open(os.path.join(DIR, basis.replace("*", "_st_").lower() + ".basis"), encoding="UTF-8") as f:
        for line in f.read().split("$ecp")[0].splitlines():
            p = line.split()
            if not p or p[0][0] in "#$*":
                continue
            if not line[0].isspace():
                cur = out.setdefault(p[0].lower(), [])
            elif p[1].isalpha():
                shell = ["spdfghik".index(p[1].lower())]
                cur.append(shell)
            else:
                shell.append([float(x.replace("D", "e").replace("d", "e")) for x in p[:2]])
    return out


def cart(l):
    return [(x, y, l - x - y) for x in range(l, -1, -1) for y in range(l - x, -1, -1)]


class Twin:
    """PySCF molecule for atoms [(symbol, (x, y, z) bohr)] with per-atom shell lists; integrals in the given shell order, functions normalised."""

    def __init__(self, atoms, shells, charge=0):
        from pyscf import gto
        bas, atm = {}, []
        for i, ((s, x), sh) in enumerate(zip(atoms, shells)):
            atm.append([f"{s}{i + 1}", tuple(float(v) for v in x)])
            bas[f"{s}{i + 1}"] = [list(k) for k in sh]
        nel = sum(gto.charge(s) for s, _ in atoms) - charge
        self.mole = gto.M(atom=atm, basis=bas, unit="bohr", cart=True, charge=charge, spin=nel % 2, verbose=0)
        # PySCF sorts shells by l within an atom; map back to the given order
        perm, off = [], 0
        for sh in shells:
            order = sorted(range(len(sh)), key=lambda k: sh[k][0])
            pos = {}
            for k in order:
                n = (sh[k][0] + 1) * (sh[k][0] + 2) // 2
                pos[k] = list(range(off, off + n))
                off += n
            for k in range(len(sh)):
                perm += pos[k]
        self.perm = np.array(perm, dtype=int)
        S = self.mole.intor("int1e_ovlp_cart")
        if S.shape[0] != off:
            from lib.mon import HarnessError
            raise HarnessError("PySCF twin has another number of functions")
        self.norm = 1 / np.sqrt(np.diag(S))
        self.nbf = off

    def _one(self, m):
        m = m * np.outer(self.norm, self.norm)
        return m[np.ix_(self.perm, self.perm)]

    @functools.cached_property
    def S(self):
        return self._one(self.mole.intor("int1e_ovlp_cart"))

    @functools.cached_property
    def T(self):
        return self._one(self.mole.intor("int1e_kin_cart"))

    @functools.cached_property
    def V(self):
        return self._one(self.mole.intor("int1e_nuc_cart"))

    @functools.cached_property
    def g(self):
        n = self.norm
        m = self.mole.intor("int2e_cart") * np.einsum("i,j,k,l->ijkl", n, n, n, n)
        return m[np.ix_(self.perm, self.perm, self.perm, self.perm)]

    def multipole(self, order, origin):
        k = sum(order)
        if k == 0:
            return self.S
        with self.mole.with_common_origin(tuple(float(v) for v in origin)):
            m = self.mole.intor({1: "int1e_r_cart", 2: "int1e_rr_cart", 3: "int1e_rrr_cart"}[k])
        dirs = [0] * order[0] + [1] * order[1] + [2] * order[2]
        idx = 0
        for d in dirs:
            idx = 3 * idx + d
        return self._one(m[idx])

    def amplitudes(self, points):
        v = self.mole.eval_gto("GTOval_cart", np.array(points))
        return (v * self.norm)[:, self.perm]

    @functools.cached_property
    def enuc(self):
        return float(self.mole.energy_nuc())


def text(atoms, unit="bohr"):
    return ";".join(f"{s} {x!r} {y!r} {z!r}" for s, (x, y, z) in [(s, [float(v) for v in p]) for s, p in atoms]) + ";"


def digest(shells):
    import hashlib
    return hashlib.sha1(repr([[k[0]] + [[float(f"{x:.10e}") for x in p] for p in k[1:]] for k in shells]).encode()).hexdigest()[:16]
