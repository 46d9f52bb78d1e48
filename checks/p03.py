"""P03 restricted Hartree-Fock: every finished calculation is checked for self-consistency from the AO integrals alone."""
import contextlib
import io

import numpy as np

from lib import basis as B
from lib import mols

RULE = ("restricted Hartree-Fock on hydrogen clusters, small hydrides, single atoms and ions in several basis sets, with and without DIIS, random thresholds and iteration limits, repeated runs on one "
        "object and rotated/shifted/reordered copies; every result checked against PySCF AO integrals; a case is one calculation, non-trivial when there are occupied and empty orbitals")
ASSUMPTIONS = ["PySCF AO integrals", "the reported Hartree-Fock energy is the electronic energy", "a calculation that logs a convergence warning makes no self-consistency claim"]
REQUIRED = {"orthonormal": 80, "density": 80, "idempotent": 80, "electrons": 80, "fock": 80, "commutes": 80, "canonical": 80, "energy": 80, "inputs_unchanged": 40, "unconverged_reported": 20,
            "invariance": 15, "repeat": 20, "reference_energy": 10, "log": 80, "plain": 25, "diis": 25, "one_threshold": 40}
NAMED = ["LiH", "H2O", "BeH2", "HeH+", "NH3", "HF", "BH", "H2"]
BASES = ["sto-3g", "6-31g", "6-31g*", "6-31g**", "cc-pvdz", "dz", "def2-svp"]


def load():
    global SlowQuant
    from slowquant.SlowQuant import SlowQuant as SQ
    SlowQuant = SQ


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 8
    out = [{"id": f"named-{n}-{b}-{i}", "kind": "named", "name": n, "basis": b} for n in NAMED for i in range(k) for b in (BASES[:2] + [BASES[2 + (NAMED.index(n) + i) % 5]])]
    out += [{"id": f"H-{n}-{b}-{i}", "kind": "H", "n": n, "basis": b} for n in (2, 4, 6) for b in ("sto-3g", "6-31g", "6-31g**") for i in range(2 * k)]
    out += [{"id": f"atom-{a}-{b}", "kind": "atom", "name": a, "basis": b, "charge": c} for a, c in (("He", 0), ("Ne", 0), ("Be", 0), ("Li", 1), ("H", -1), ("Mg", 2)) for b in ("sto-3g", "6-31g", "cc-pvdz")]
    out += [{"id": f"bare-{i}", "kind": "bare"} for i in range(1)]
    return out


def atoms(s, rng):
    if s["kind"] == "named":
        mol = mols.random_named(rng, s["name"], "sto-3g", jitter=0.05)
        return [(a, tuple(float(v) * B.ANG for v in p)) for a, p in mol.atoms], mol.charge
    if s["kind"] == "H":
        return [("H", tuple(float(v) * B.ANG for v in p)) for p in mols.spread_points(rng, s["n"], 0.7)], 0
    if s["kind"] == "bare":
        return [("H", (0.0, 0.0, 0.0)), ("H", (0.0, 0.5, 1.9))], 2
    return [(s["name"], tuple(float(v) for v in rng.normal(size=3)))], s["charge"]


def fock(h, g, D):
    return h + np.einsum("pqrs,sr->pq", g, D) - 0.5 * np.einsum("psqr,sr->pq", g, D)


def validate(m, hf, tw, n, thr, out, ctx):
    """Returns True when the calculation claims convergence."""
    h, g, S = tw.T + tw.V, tw.g, tw.S
    C, D, F = np.array(hf.mo_coeff), np.array(hf.rdm1), np.array(hf.fock_matrix)
    nb = S.shape[0]
    tol = max(1e-6, 3e4 * thr)
    m.close("orthonormal", C.T @ S @ C, np.eye(nb), 1e-8, **ctx)
    occ = C[:, : n // 2]
    m.close("density", D, 2 * occ @ occ.T, 1e-8, **ctx)
    m.close("idempotent", D @ S @ D, 2 * D, 1e-7, **ctx)
    m.close("electrons", float(np.trace(D @ S)), float(n), 1e-8, **ctx)
    FD = fock(h, g, D)
    res = FD @ D @ S - S @ D @ FD
    claims = "WARNING" not in hf.log and "WARNING" not in out
    m.true("log", len(hf.log) > 0, **ctx)
    m.true("unconverged_reported", not (claims and np.max(np.abs(res)) > 1e-2), residual=float(np.max(np.abs(res))), **ctx)
    if not claims:
        return False
    m.close("fock", F, FD, tol, **ctx)
    m.close("commutes", res, np.zeros_like(res), tol, **ctx)
    FM = C.T @ F @ C
    e = np.diag(FM)
    m.close("canonical", FM, np.diag(e), 1e-6, **ctx)
    m.true("canonical", np.all(np.diff(e) > -1e-7), energies=e, **ctx)
    E = 0.5 * float(np.sum(D * (h + FD)))
    m.close("energy", float(hf.E_hf), E, max(1e-6, 1e3 * thr), **ctx)
    return True


def run(s, m, rng):
    at, charge = atoms(s, rng)
    bs = s.get("basis", "6-31g")
    if any(a.lower() not in B.table(bs) for a, _ in at):
        bs = "6-31g"
    n = int(sum({"H": 1, "He": 2, "Li": 3, "Be": 4, "B": 5, "C": 6, "N": 7, "O": 8, "F": 9, "Ne": 10, "Mg": 12}[a] for a, _ in at)) - charge
    tw = B.Twin(at, [B.table(bs)[a.lower()] for a, _ in at], charge)

    def build(at_):
        sq = SlowQuant()
        sq.set_molecule(B.text(at_), charge, "bohr", bs)
        sq.init_hartree_fock()
        return sq, sq.hartree_fock

    sq, hf = build(at)
    I = sq.integral
    before = [np.array(x).copy() for x in (I.overlap_matrix, I.kinetic_energy_matrix, I.nuclear_attraction_matrix, I.electron_repulsion_tensor)]
    energies = {}
    # (DIIS, energy threshold, density threshold, iteration limit, accuracy the thresholds promise)
    r = float(10.0 ** rng.integers(-8, -5))
    plan = [(True, 1e-9, 1e-9, 200, 1e-9), (False, 1e-9, 1e-9, 400, 1e-9), (bool(rng.integers(2)), r, r, 300, r), (True, 1e-9, 1e-9, int(rng.integers(2, 5)), 1e-9),
            (bool(rng.integers(2)), 2.0, 1e-9, 400, 1e-9), (False, 1e-12, 0.5, 400, 1e-7)]
    for k in rng.permutation(len(plan)):
        diis, dthr, rthr, mx, thr = plan[k]
        hf.use_diis, hf.de_threshold, hf.rmsd_threshold, hf.max_scf_iterations = diis, dthr, rthr, mx
        hf.logger.log = ""
        hf.logger.print_output = pr = bool(rng.integers(2))
        ctx = {"atoms": at, "charge": charge, "basis": bs, "diis": diis, "thr": [dthr, rthr], "max": mx, "print": pr}
        m.case(ctx, 0 < n // 2 < tw.nbf)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            hf.run_restricted_hartree_fock()
        ok = validate(m, hf, tw, n, thr, buf.getvalue(), ctx)
        if ok and mx > 10:
            m._ev("diis" if diis else "plain")
        if ok and dthr != rthr:
            m._ev("one_threshold")
        if ok and dthr == rthr == 1e-9 and mx > 10:
            energies[diis] = float(hf.E_hf)
            kept = (np.array(hf.mo_coeff).copy(), hf.mo_coeff)
    for a, b in zip(before, (I.overlap_matrix, I.kinetic_energy_matrix, I.nuclear_attraction_matrix, I.electron_repulsion_tensor)):
        m.close("inputs_unchanged", b, a, 0.0, atoms=at)
    if energies:
        m.close("repeat", kept[1], kept[0], 0.0, atoms=at, why="earlier orbitals were changed by a later calculation")
        hf.use_diis, hf.de_threshold, hf.rmsd_threshold, hf.max_scf_iterations = next(iter(energies)), 1e-9, 1e-9, 400
        with contextlib.redirect_stdout(io.StringIO()):
            hf.run_restricted_hartree_fock()
        m.close("repeat", float(hf.E_hf), energies[next(iter(energies))], 1e-9, atoms=at)
    if s["kind"] == "named" and True in energies:
        from pyscf import scf
        if s["name"] in ("H2", "HeH+", "LiH", "HF", "H2O"):
            mf = scf.RHF(tw.mole)
            mf.verbose, mf.conv_tol = 0, 1e-11
            mf.kernel()
            if mf.converged:
                m.close("reference_energy", energies[True], float(mf.e_tot - tw.enuc), 1e-6, atoms=at, basis=bs)
        if bs in ("sto-3g", "6-31g", "dz"):
            q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
            d = rng.normal(size=3) * 4
            perm = rng.permutation(len(at))
            at2 = [(at[i][0], tuple(float(v) for v in q @ np.array(at[i][1]) + d)) for i in perm]
            sq2, h2 = build(at2)
            h2.max_scf_iterations = 200
            with contextlib.redirect_stdout(io.StringIO()) as out:
                h2.run_restricted_hartree_fock()
            if "WARNING" not in out.getvalue():
                m.close("invariance", float(h2.E_hf), energies[True], 1e-6, atoms=at, moved=at2, basis=bs)
                # same orbital energies
                e1 = np.linalg.eigvalsh(np.array(h2.mo_coeff).T @ np.array(h2.fock_matrix) @ np.array(h2.mo_coeff))
                hf.use_diis = True
                with contextlib.redirect_stdout(io.StringIO()):
                    hf.run_restricted_hartree_fock()
                e0 = np.linalg.eigvalsh(np.array(hf.mo_coeff).T @ np.array(hf.fock_matrix) @ np.array(hf.mo_coeff))
                m.close("invariance", e1, e0, 1e-5, atoms=at, basis=bs)
