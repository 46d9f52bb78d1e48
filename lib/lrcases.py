"""Stationary (CASSCF) wave functions for response checks: PySCF orbitals randomly rotated inside each orbital space, ansatz parameters fitted to the exact active-space state."""
from __future__ import annotations

import numpy as np
import scipy.linalg
import scipy.optimize

from lib import hist, lr, mols
from lib.mon import HarnessError
from lib import oracle as O

MOLS = {"H2": ("6-31g", 2), "HeH+": ("6-31g", 2), "H3+": ("sto-3g", 2), "H4": ("sto-3g", 4), "LiH": ("sto-3g", 4), "BeH2": ("sto-3g", 6), "H3-": ("sto-3g", 4), "H2b": ("sto-3g", 2)}


def molecule(rng, name, basis=None):
    b = basis or MOLS[name][0]
    if name == "H4":
        return mols.Mol([("H", (0.0 + rng.normal() * 0.05, rng.normal() * 0.05, 0.0)), ("H", (0.0, rng.normal() * 0.05, 0.95 + rng.normal() * 0.08)), ("H", (1.25 + rng.normal() * 0.05, rng.normal() * 0.1, 0.1)),
                         ("H", (1.3, rng.normal() * 0.3, 1.1 + rng.normal() * 0.08))], b, 0)
    if name in ("H3+", "H3-"):
        return mols.Mol([("H", (rng.normal() * 0.05, 0.0, 0.0)), ("H", (0.0, rng.normal() * 0.05, 0.9)), ("H", (0.8, rng.normal() * 0.1, 0.5))], b, 1 if name == "H3+" else -1)
    return mols.random_named(rng, {"H2b": "H2"}.get(name, name), b, jitter=0.06)


def casscf(rng, mol, cas):
    """Orbitals that make the lowest active-space singlet stationary: PySCF RHF guess, BFGS over the orbital rotations, then Newton steps."""
    from pyscf import scf
    mf = scf.RHF(mol.mole)
    mf.verbose, mf.conv_tol = 0, 1e-12
    mf.kernel()
    if not mf.converged:
        return None
    ni = (mol.nelec - cas[0]) // 2
    space = lr.Space(ni, cas[1], mol.norb - ni - cas[1], cas[0])
    pairs = space.q_pairs(False)
    if not pairs:
        return mf.mo_coeff
    hq, gq = O.transform(mf.mo_coeff, mol.h, mol.g)
    na, n = cas[1], len(pairs)
    asec = O.Sector(na, cas[0] // 2, cas[0] // 2)
    S2 = 10.0 * asec.S2().toarray()  # singlets first
    Em = np.array([[asec.E(p, q).toarray() for q in range(na)] for p in range(na)])
    EE = np.einsum("pqij,rsjk->pqrsik", Em, Em)
    for p in range(na):
        for q in range(na):
            EE[p, q, q, :] -= Em[p]  # e_pqrs = E_pq E_rs - d_qr E_ps
    gens_ = []
    for p, q in pairs:
        K = np.zeros((mol.norb, mol.norb))
        K[p, q], K[q, p] = 1.0, -1.0
        gens_.append(K)

    def rot(x, C):
        return C @ scipy.linalg.expm(-sum(k * K for k, K in zip(x, gens_)))

    def eval_(C, want_grad=True):
        h, g = O.transform(C, hq, gq)
        hc, ga, ecore = hist.active_integrals(h, g, ni, na)
        w, v = np.linalg.eigh(np.einsum("pq,pqij->ij", hc, Em) + 0.5 * np.einsum("pqrs,pqrsij->ij", ga, EE) + S2)
        if not want_grad:
            return w[0] + ecore
        v = v[:, 0]
        D, d = np.einsum("i,pqij,j->pq", v, Em, v), np.einsum("i,pqrsij,j->pqrs", v, EE, v)
        out = np.zeros(n)
        for k, K in enumerate(gens_):
            # C -> C(1-K): the integrals change linearly, and so does the energy functional at fixed density
            dh = -(h @ K + K.T @ h)
            dg = -sum(np.moveaxis(np.tensordot(g, K, axes=(ax, 0)), -1, ax) for ax in range(4))
            dhc, dga, decore = hist.active_integrals(dh, dg, ni, na)
            out[k] = decore + np.sum(dhc * D) + 0.5 * np.sum(dga * d)
        return w[0] + ecore, out

    e = 1e-5
    C = np.eye(mol.norb)
    r = scipy.optimize.minimize(lambda x: eval_(rot(x, C), False), rng.normal(size=n) * 0.05, method="BFGS", options={"gtol": 1e-5, "maxiter": 200})
    C = rot(r.x, C)
    g0 = eval_(C)[1]
    for _ in range(8):
        if np.max(np.abs(g0)) < 1e-10:
            break
        J = np.array([(eval_(rot(e * np.eye(n)[k], C))[1] - eval_(rot(-e * np.eye(n)[k], C))[1]) / (2 * e) for k in range(n)]).T
        step = np.linalg.lstsq(J, -g0, rcond=1e-7)[0]
        if np.max(np.abs(step)) > 0.3:
            return None
        C = rot(step, C)
        g0 = eval_(C)[1]
    if np.max(np.abs(g0)) > 1e-8:
        return None
    return mf.mo_coeff @ C


def make(rng, s, WaveFunctionUPS, WaveFunctionUCC, tries=6, mix=0.5, source=None, root=0, molecule_fn=None):
    """Returns dict(mol, C, wf, space, state, U, H, dets, res): wf stationary to res."""
    cas = tuple(s["cas"])
    for _ in range(tries):
        mol = (molecule_fn or molecule)(rng, s["mol"], s.get("basis"))
        C = casscf(rng, mol, cas)
        if C is None:
            continue
        ni = (mol.nelec - cas[0]) // 2
        nv = mol.norb - ni - cas[1]
        K = np.zeros((mol.norb, mol.norb))
        for a, b in ((0, ni), (ni, ni + cas[1]), (ni + cas[1], mol.norb)):
            if b - a > 1:
                k = rng.normal(size=(b - a, b - a)) * (mix if a == ni else 0.5)
                K[a:b, a:b] = k - k.T
        C = C @ scipy.linalg.expm(K) @ np.diag(rng.choice([-1.0, 1.0], mol.norb))
        h, g = O.transform(C, mol.h, mol.g)
        space = lr.Space(ni, cas[1], nv, cas[0])
        hc, ga, ecore = hist.active_integrals(h, g, ni, cas[1])
        with hist.quiet():
            src = mol.fresh_mole() if source is None else source(mol)
            if s["wf"][0] == "UCC":
                wf = WaveFunctionUCC(cas, C.copy(), src, s["wf"][1])
            else:
                wf = WaveFunctionUPS(cas, C.copy(), src, s["wf"][1], ansatz_options=dict(s["wf"][2]) if len(s["wf"]) > 2 else {})
        model = hist.Model(wf, mol, C)
        sec = model.sec
        Ha = sec.hamiltonian(hc, ga).toarray()
        w, v = np.linalg.eigh(Ha)
        S2 = O.Sector(cas[1], cas[0] // 2, cas[0] // 2, dets=model.dets).S2().toarray()
        # lowest singlet
        ks = [i for i in range(len(w)) if abs(v[:, i] @ S2 @ v[:, i]) < 1e-6]
        k = ks[root] if len(ks) > root else None
        if k is None or (k + 1 < len(w) and w[k + 1] - w[k] < 1e-4) or (k and w[k] - w[k - 1] < 1e-4):
            continue
        target = v[:, k]
        hf = model.refs[0]
        if abs(hf @ target) < 0.05:
            continue
        target = target * np.sign(hf @ target)

        def resid(t):
            model.set_thetas(t)
            return model.state - target

        best = None
        for att in range(6):
            r = scipy.optimize.least_squares(resid, rng.normal(size=len(wf.thetas)) * (0.1 + 0.4 * att), xtol=1e-15, ftol=1e-15, gtol=1e-15, max_nfev=400)
            if best is None or r.cost < best.cost:
                best = r
            if best.cost < 1e-18:
                break
        if best.cost > 1e-17:
            continue
        thetas = [float(x) for x in best.x]
        model.set_thetas(thetas)
        wf.thetas = thetas
        ucc = model.ucc
        U = space.unitary(model.layout, thetas, ucc)
        state = space.embed(model.state, model.dets)
        H = space.sec.hamiltonian(h, g)
        qs = [lr.R(lambda x, X=X: X @ x, lambda x, X=X: X.T @ x) for X in (space.q_op(p, q) for p, q in space.q_pairs(False))]
        grad = np.max(np.abs(lr.gradient(qs, H, state))) if qs else 0.0
        if grad > 1e-6:
            continue
        if np.max(np.abs(U @ space.hf - state)) > 1e-8:
            raise HarnessError("unitary and state disagree")
        return {"mol": mol, "C": C, "wf": wf, "space": space, "state": state, "U": U, "H": H, "h": h, "g": g, "dets": model.dets, "grad": float(grad), "thetas": thetas, "model": model}
    raise HarnessError(f"no stationary wave function found for {s}")


def match(space, ops, mine, rng):
    """Order of the code's operators in terms of ours: list of (index, sign); None for one that is not in the list."""
    r = rng.normal(size=(space.sec.dim, 2))
    sig = [X @ r for _, X in mine]
    out = []
    for o in ops:
        M = space.sec.op(dict(o.operators)) @ r
        hit = None
        for i, t in enumerate(sig):
            for sg in (1.0, -1.0):
                if np.max(np.abs(M - sg * t)) < 1e-9:
                    hit = (i, sg)
            if hit:
                break
        out.append(hit)
    return out
