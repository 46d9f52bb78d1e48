"""Small molecules with randomised geometries; reference integrals straight from PySCF."""
from __future__ import annotations

import functools

import numpy as np

from lib import oracle as O


class Mol:
    """Geometry + PySCF Mole + AO integrals (independent of the code under test)."""

    def __init__(self, atoms, basis="sto-3g", charge=0, cart=False, unit="angstrom"):
        from pyscf import gto
        self.atoms, self.basis, self.charge, self.unit = atoms, basis, charge, unit
        self.text = "; ".join(f"{s} {x:.10f} {y:.10f} {z:.10f}" for s, (x, y, z) in atoms)
        self.mole = gto.M(atom=self.text, basis=basis, charge=charge, cart=cart, unit=unit, verbose=0)
        self.S = self.mole.intor("int1e_ovlp")
        self.h = self.mole.intor("int1e_kin") + self.mole.intor("int1e_nuc")
        self.g = self.mole.intor("int2e")
        with self.mole.with_common_origin((0, 0, 0)):
            self.dip = self.mole.intor("int1e_r")
        self.nelec = self.mole.nelectron
        self.norb = self.S.shape[0]
        self.enuc = float(self.mole.energy_nuc())

    @functools.cached_property
    def rhf_mo(self):
        from pyscf import scf
        mf = scf.RHF(self.mole)
        mf.conv_tol = 1e-12
        mf.verbose = 0
        mf.kernel()
        return mf.mo_coeff

    def fresh_mole(self):
        return self.mole.copy()

    def mo(self, h=None):
        return self.h


def spread_points(rng, n, dmin=0.7, box=None):
    """Random points with a minimum distance (angstrom)."""
    box = box or 0.9 * n ** (1 / 3) + 0.6
    pts = []
    while len(pts) < n:
        p = rng.uniform(-box, box, 3)
        if all(np.linalg.norm(p - q) > dmin for q in pts):
            pts.append(p)
    return [tuple(float(v) for v in p) for p in pts]


def hydrogens(rng, n, charge=0, basis="sto-3g", cart=False, dmin=0.75):
    return Mol([("H", p) for p in spread_points(rng, n, dmin)], basis, charge, cart)


def random_named(rng, name, basis="sto-3g", cart=False, jitter=0.08):
    base = {
        "LiH": [("Li", (0, 0, 0)), ("H", (0, 0, 1.6))],
        "H2O": [("O", (0, 0, 0.1173)), ("H", (0, 0.7572, -0.4692)), ("H", (0, -0.7572, -0.4692))],
        "BeH2": [("Be", (0, 0, 0)), ("H", (0, 0, 1.33)), ("H", (0, 0, -1.33))],
        "HeH+": [("He", (0, 0, 0)), ("H", (0, 0, 0.77))],
        "NH3": [("N", (0, 0, 0.1)), ("H", (0, 0.94, -0.27)), ("H", (0.81, -0.47, -0.27)), ("H", (-0.81, -0.47, -0.27))],
        "HF": [("F", (0, 0, 0)), ("H", (0, 0, 0.92))],
        "N2": [("N", (0, 0, 0)), ("N", (0, 0, 1.1))],
        "BH": [("B", (0, 0, 0)), ("H", (0, 0, 1.23))],
        "CH2": [("C", (0, 0, 0)), ("H", (0, 0.86, 0.7)), ("H", (0, -0.86, 0.7))],
        "H2": [("H", (0, 0, 0)), ("H", (0, 0, 0.75))],
    }[name]
    atoms = [(s, tuple(float(v + rng.normal() * jitter) for v in x)) for s, x in base]
    return Mol(atoms, basis, 1 if name.endswith("+") else 0, cart)


def random_mo(rng, mol, mix=None):
    if mix is None:
        return O.random_mo(rng, mol.S)
    import scipy.linalg
    k = rng.normal(size=(mol.norb, mol.norb)) * mix
    return mol.rhf_mo @ scipy.linalg.expm(k - k.T)
