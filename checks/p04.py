"""P04 unrestricted Hartree-Fock: every finished calculation is checked for self-consistency of both spins from the AO integrals alone."""
import contextlib
import io

import numpy as np

from checks import p03
from lib import basis as B
from lib import mols

RULE = ("unrestricted Hartree-Fock on molecules, atoms and ions with even and odd electron numbers in several basis sets, with and without DIIS, random symmetry-breaking mix, thresholds and iteration "
        "limits, repeated runs on one object; every result checked against PySCF AO integrals; a case is one calculation, non-trivial when both occupied and empty orbitals exist")
ASSUMPTIONS = ["PySCF AO integrals", "the reported energy is the electronic energy", "a calculation that logs a convergence warning makes no self-consistency claim",
               "the alpha electrons are the more numerous ones and at most one electron is unpaired (the only multiplicities the package offers)"]
REQUIRED = {"orthonormal": 150, "density": 150, "electrons": 150, "fock": 100, "commutes": 100, "canonical": 100, "energy": 60, "spin": 80, "charge_spin_density": 80, "inputs_unchanged": 40,
            "unconverged_reported": 80, "restricted_limit": 20, "repeat": 20, "open_shell": 30, "broken": 3, "log": 80, "restricted_untouched": 20, "invariance": 10, "one_threshold": 60}
NAMED = ["LiH", "H2O", "BeH2", "HeH+", "NH3", "HF", "BH", "H2", "CH2"]
NEL = {"H": 1, "He": 2, "Li": 3, "Be": 4, "B": 5, "C": 6, "N": 7, "O": 8, "F": 9, "Ne": 10, "Mg": 12, "Na": 11}


def load():
    p03.load()
    global SlowQuant
    SlowQuant = p03.SlowQuant


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 8
    out = [{"id": f"named-{n}-{b}-{c}-{i}", "kind": "named", "name": n, "basis": b, "charge": c} for n in NAMED for i in range(k) for b in ("sto-3g", "6-31g") for c in (0, 1)]
    out += [{"id": f"H-{n}-{b}-{c}-{i}", "kind": "H", "n": n, "basis": b, "charge": c} for n in (2, 3, 5) for b in ("sto-3g", "6-31g", "6-31g**") for c in (0, 1) for i in range(k)]
    out += [{"id": f"stretched-{b}-{i}", "kind": "stretched", "basis": b, "charge": 0} for b in ("sto-3g", "6-31g", "cc-pvdz") for i in range(2 * k)]
    out += [{"id": f"atom-{a}-{c}-{b}", "kind": "atom", "name": a, "basis": b, "charge": c} for a, c in (("H", 0), ("He", 0), ("He", 1), ("Li", 0), ("Be", 1), ("B", 0), ("F", 0), ("Na", 0), ("Ne", 1), ("H", -1)) for b in ("sto-3g", "6-31g")]
    # every orbital holds an alpha electron: only the beta density has to converge
    out += [{"id": f"full-HeH-{i}", "kind": "named", "name": "HeH+", "basis": "sto-3g", "charge": -1} for i in range(2 * k)]
    out += [{"id": f"full-H3-{i}", "kind": "H", "n": 3, "basis": "sto-3g", "charge": -2} for i in range(2 * k)]
    out += [{"id": "bare", "kind": "bare", "charge": 2}]
    return out


def atoms(s, rng):
    if s["kind"] == "named":
        mol = mols.random_named(rng, s["name"], "sto-3g", jitter=0.05)
        return [(a, tuple(float(v) * B.ANG for v in p)) for a, p in mol.atoms], mol.charge + s["charge"]
    if s["kind"] == "stretched":
        d = rng.normal(size=3)
        d *= rng.uniform(3, 5) / np.linalg.norm(d)
        return [("H", (0.0, 0.0, 0.0)), ("H", tuple(float(v) for v in d))], 0
    return p03.atoms({**s}, rng)[0], s["charge"]


def fock(h, g, Da, Db):
    J = np.einsum("pqrs,sr->pq", g, Da + Db)
    return h + J - np.einsum("psqr,sr->pq", g, Da), h + J - np.einsum("psqr,sr->pq", g, Db)


def validate(m, hf, tw, na, nb, thr, out, ctx):
    h, g, S = tw.T + tw.V, tw.g, tw.S
    Ds, tol = [], max(1e-6, 3e4 * thr)
    n = S.shape[0]
    for nel, C, D in ((na, hf.mo_coeff_alpha, hf.rdm1_alpha), (nb, hf.mo_coeff_beta, hf.rdm1_beta)):
        C, D = np.array(C), np.array(D)
        m.close("orthonormal", C.T @ S @ C, np.eye(n), 1e-8, **ctx)
        m.close("density", D, C[:, :nel] @ C[:, :nel].T, 1e-8, **ctx)
        m.close("electrons", float(np.trace(D @ S)), float(nel), 1e-8, **ctx)
        Ds.append(D)
    m.close("charge_spin_density", np.array(hf.rdm1_charge), Ds[0] + Ds[1], 1e-12, **ctx)
    m.close("charge_spin_density", np.array(hf.rdm1_spin), Ds[0] - Ds[1], 1e-12, **ctx)
    # <S^2> - S_z(S_z+1) = N_beta - tr(Da S Db S)
    cont = nb - float(np.trace(Ds[0] @ S @ Ds[1] @ S))
    m.close("spin", float(hf.spin_contamination), cont, 1e-8, **ctx)
    Fs = fock(h, g, *Ds)
    res = [F @ D @ S - S @ D @ F for F, D in zip(Fs, Ds)]
    claims = "WARNING" not in hf.log and "WARNING" not in out
    m.true("log", len(hf.log) > 0, **ctx)
    big = max(np.max(np.abs(r)) for r in res)
    m.true("unconverged_reported", not (claims and big > 1e-2), residual=float(big), **ctx)
    if not claims:
        return None
    for F, FD, r, C in zip((hf.fock_matrix_alpha, hf.fock_matrix_beta), Fs, res, (hf.mo_coeff_alpha, hf.mo_coeff_beta)):
        m.close("fock", np.array(F), FD, tol, **ctx)
        m.close("commutes", r, np.zeros_like(r), tol, **ctx)
        FM = np.array(C).T @ np.array(F) @ np.array(C)
        m.close("canonical", FM, np.diag(np.diag(FM)), 1e-6, **ctx)
        m.true("canonical", np.all(np.diff(np.diag(FM)) > -1e-7), energies=np.diag(FM), **ctx)
    E = 0.5 * sum(float(np.sum(D * (h + F))) for D, F in zip(Ds, Fs))
    m.close("energy", float(hf.E_uhf), E, max(1e-6, 1e3 * thr), **ctx)
    return cont


def run(s, m, rng):
    at, charge = atoms(s, rng)
    bs = s.get("basis", "6-31g")
    n = int(sum(NEL[a] for a, _ in at)) - charge
    na, nb = (n + 1) // 2, n // 2
    tw = B.Twin(at, [B.table(bs)[a.lower()] for a, _ in at], charge)

    def build(at_):
        sq = SlowQuant()
        sq.set_molecule(B.text(at_), charge, "bohr", bs)
        sq.init_hartree_fock()
        return sq, sq.hartree_fock

    def go(hf, restricted=False):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            hf.run_restricted_hartree_fock() if restricted else hf.run_unrestricted_hartree_fock()
        return buf.getvalue()

    sq, hf = build(at)
    I = sq.integral
    names = ("overlap_matrix", "kinetic_energy_matrix", "nuclear_attraction_matrix", "electron_repulsion_tensor")
    before = [np.array(getattr(I, x)).copy() for x in names]
    rhf = None
    if na == nb:
        hf.max_scf_iterations = 300
        rhf_ok = "WARNING" not in go(hf, True)
        rhf = [float(hf.E_hf), np.array(hf.mo_coeff).copy(), np.array(hf.rdm1).copy()] if rhf_ok else None
    first = None
    # (DIIS, energy threshold, density threshold, iteration limit, mixing, accuracy the thresholds promise)
    r = float(10.0 ** rng.integers(-8, -5))
    plan = [(True, 1e-9, 1e-9, 200, 0.15, 1e-9), (False, 1e-9, 1e-9, 300, float(rng.uniform(0.05, 0.9)), 1e-9), (True, 1e-9, 1e-9, 300, 0.0, 1e-9), (bool(rng.integers(2)), r, r, 300, float(rng.uniform(-0.9, 0.9)), r),
            (True, 1e-9, 1e-9, int(rng.integers(2, 5)), 0.15, 1e-9), (bool(rng.integers(2)), 2.0, 1e-9, 400, float(rng.uniform(0.05, 0.5)), 1e-9), (False, 1e-12, 0.5, 400, 0.15, 1e-7)]
    for k in rng.permutation(len(plan)):
        diis, dthr, rthr, mx, mix, thr = plan[k]
        hf.use_diis, hf.de_threshold, hf.rmsd_threshold, hf.max_scf_iterations, hf.uhf_lumo_homo_mix_coeff = diis, dthr, rthr, mx, mix
        hf.logger.log = ""
        ctx = {"atoms": at, "charge": charge, "basis": bs, "diis": diis, "thr": [dthr, rthr], "max": mx, "mix": mix}
        m.case(ctx, 0 < na < tw.nbf)
        out = go(hf)
        cont = validate(m, hf, tw, na, nb, thr, out, ctx)
        if cont is None:
            continue
        m._ev("open_shell" if na != nb else "closed_shell")
        if cont > 0.05:
            m._ev("broken")
        if dthr != rthr:
            m._ev("one_threshold")
        if mix == 0.0 and rhf is not None and s["kind"] == "named" and s["name"] in ("LiH", "H2O", "BeH2", "HeH+", "NH3", "HF", "H2"):
            m.close("restricted_limit", float(hf.E_uhf), rhf[0], 1e-6, **ctx)
            m.close("restricted_limit", np.array(hf.rdm1_charge), rhf[2], 1e-4, **ctx)
        if first is None and mix == 0.15 and mx == 200:
            first = (float(hf.E_uhf), np.array(hf.mo_coeff_alpha).copy(), hf.mo_coeff_alpha, np.array(hf.rdm1_beta).copy(), hf.rdm1_beta)
    for a, x in zip(before, names):
        m.close("inputs_unchanged", getattr(I, x), a, 0.0, atoms=at)
    if rhf is not None:
        m.close("restricted_untouched", float(hf.E_hf), rhf[0], 0.0, atoms=at)
        m.close("restricted_untouched", np.array(hf.mo_coeff), rhf[1], 0.0, atoms=at)
    if first is not None:
        m.close("repeat", first[2], first[1], 0.0, atoms=at, why="earlier results were changed by a later calculation")
        m.close("repeat", first[4], first[3], 0.0, atoms=at, why="earlier results were changed by a later calculation")
        hf.use_diis, hf.de_threshold, hf.rmsd_threshold, hf.max_scf_iterations, hf.uhf_lumo_homo_mix_coeff = True, 1e-9, 1e-9, 200, 0.15
        go(hf)
        m.close("repeat", float(hf.E_uhf), first[0], 1e-9, atoms=at)
        if s["kind"] == "named" and na != nb and s["name"] in ("H2", "HeH+", "LiH", "H2O"):
            perm = rng.permutation(len(at))
            d = rng.normal(size=3) * 4
            q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
            _, h2 = build([(at[i][0], tuple(float(v) for v in q @ np.array(at[i][1]) + d)) for i in perm])
            h2.max_scf_iterations = 200
            if "WARNING" not in go(h2):
                m.close("invariance", float(h2.E_uhf), first[0], 1e-6, atoms=at, basis=bs)
                m.close("invariance", float(h2.spin_contamination), float(hf.spin_contamination), 1e-5, atoms=at, basis=bs)
