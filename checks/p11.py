"""P11 reduced density matrices and density-matrix formulas vs. the state they come from."""
import itertools

import numpy as np

from lib import mols
from lib import oracle as O

RULE = ("UPS and UCC wave functions on random hydrogen clusters with random orbitals, every ansatz kind, random parameters and 1..4 active orbitals: RDM orders 1-4 "
        "against Gram matrices of annihilated Fock vectors; the density-matrix energy, gradient, response-gradient, metric, norm, property and Hessian formulas "
        "on random integrals and random states for all inactive/active/virtual partitions up to 5 orbitals against full-space commutators; a case is one (state, "
        "partition), non-trivial when the state is multi-determinantal")
ASSUMPTIONS = ["real states and real symmetric integrals (the code base's domain)", "orbital response operators are E_pq/sqrt(2)"]
REQUIRED = {"rdm1": 30, "rdm2": 30, "rdm3": 20, "rdm4": 6, "trace": 60, "contraction": 30, "energy_from_rdm": 60, "energy_wavefunction": 20, "orbital_gradient": 60,
            "response_gradient": 60, "metric_sigma": 60, "response_norm": 60, "property_gradient": 60, "hessian_A": 60, "hessian_B": 60, "full_rdm1": 60, "full_rdm2": 60}


def load():
    global dm, UPS, UCC
    from slowquant.unitary_coupled_cluster import density_matrix as dm_
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS
    dm, UPS, UCC = dm_, WaveFunctionUPS, WaveFunctionUCC


def warm():
    rng = np.random.default_rng(0)
    run_formula({"part": (1, 2, 1), "n": 1}, _Null(), rng)
    mol = mols.hydrogens(rng, 2)
    wf = UPS((2, 2), mol.rhf_mo, mol.mole, "fuccsd", {})
    wf.thetas = [0.1] * len(wf.thetas)
    wf.rdm1, wf.rdm2, wf.energy_elec


class _Null:
    def __getattr__(self, k):
        return lambda *a, **kw: True


PARTS = [p for p in itertools.product(range(0, 4), range(1, 4), range(0, 4)) if p[0] + p[1] + p[2] <= 5 and p[0] + p[2] > 0]
WFS = [("tups", {"n_layers": 2}), ("fuccsd", {}), ("fucc", {"n_layers": 2, "GS": True, "GpD": True}), ("qnp", {"n_layers": 2}), ("safuccsd", {}),
       ("UCC", "SD"), ("UCC", "SDTQ")]


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 6
    out = []
    for i in range(k):
        for p in PARTS:
            out.append({"id": f"formula-{p}-{i}", "kind": "formula", "part": p, "n": 4})
        for j in range(len(WFS)):
            for cas, nh in (((2, 2), 4), ((2, 3), 4), ((4, 3), 4), ((2, 1), 2), ((4, 2), 4)):
                out.append({"id": f"wf-{j}-{cas}-{i}", "kind": "wf", "j": j, "cas": cas, "nh": nh, "orders": 4 if cas[1] <= 3 else 3})
            for cas, nh in (((4, 4), 6), ((2, 4), 6)):
                out.append({"id": f"wf-{j}-{cas}-{i}", "kind": "wf", "j": j, "cas": cas, "nh": nh, "orders": 4 if tier != "quick" and i == 0 and j < 3 else 3})
    out.sort(key=lambda s: -s.get("orders", 0))
    return out


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def ref_rdm(norb, dets, c, k):
    """Gamma_{p1 q1 p2 q2 ...} = sum_spins <a+_p1 a+_p2 .. a_q2 a_q1> as Gram matrix of annihilated vectors."""
    nso = 2 * norb
    v = np.zeros(2**nso)
    for ci, d in zip(c, dets):
        v[int(d)] = ci
    V = v[None, :]
    a = O.ladder(nso)
    for _ in range(k):
        # new index appended last: V[i1,..,ik] = a_ik .. a_i1 |psi>
        V = np.stack([(x @ V.T).T for x in a], axis=1).reshape(-1, 2**nso)
    G = V @ V.T
    G = G.reshape((norb, 2) * k + (norb, 2) * k)
    L = "abcd"[:k]
    R = "efgh"[:k]
    S = "ijkl"[:k]
    lhs = "".join(x + s for x, s in zip(L, S)) + "".join(x + s for x, s in zip(R, S))
    return np.einsum(lhs + "->" + "".join(x + y for x, y in zip(L, R)), G)


def run_wf(s, m, rng):
    nm, opt = WFS[s["j"]]
    cas = tuple(s["cas"])
    mol = mols.hydrogens(rng, s["nh"])
    n = cas[1]
    C = mols.random_mo(rng, mol)
    if nm == "UCC":
        wf = UCC(cas, C, mol.mole, opt)
    else:
        wf = UPS(cas, C, mol.mole, nm, dict(opt))
    for rep in range(2 if s["orders"] < 4 else 1):
        wf.thetas = rng.uniform(-1.5, 1.5, len(wf.thetas)).tolist()
        c = np.array(wf.ci_coeffs)
        m.case({"wf": nm, "opt": opt, "cas": cas, "nh": s["nh"], "th": wf.thetas[:3]}, int(np.sum(np.abs(c) > 1e-6)) > 1)
        ref = {k: ref_rdm(n, wf.ci_info.idx2det, c, k) for k in range(1, s["orders"] + 1)}
        order = list(ref)
        if rep:
            order = order[::-1]  # caches filled in the other order
        for k in order:
            m.close(f"rdm{k}", getattr(wf, f"rdm{k}"), ref[k], 1e-8, wf=nm, cas=cas)
        N = cas[0]
        t = N
        for k in sorted(ref):
            m.close("trace", float(np.einsum("".join(x * 2 for x in "abcd"[:k]) + "->", getattr(wf, f"rdm{k}"))), float(t), 1e-8, order=k)
            t *= N - k
            if k > 1:
                got = np.trace(getattr(wf, f"rdm{k}"), axis1=2 * k - 2, axis2=2 * k - 1)
                m.close("contraction", got, (N - k + 1) * getattr(wf, f"rdm{k - 1}"), 1e-8, order=k)
        # energy through the wave function and through the density matrices, both against the full-space state
        h, g = O.transform(wf.c_mo, mol.h, mol.g)
        full = O.Sector(mol.norb, mol.nelec // 2, mol.nelec // 2)
        v = O.embed_active(c, wf.ci_info.idx2det, mol.norb, wf.num_inactive_orbs, n, full)
        e = float(v @ (full.hamiltonian(h, g) @ v))
        m.close("energy_wavefunction", wf.energy_elec, e, 1e-8, wf=nm, cas=cas)
        m.close("energy_from_rdm", dm.get_electronic_energy(wf.h_mo, wf.g_mo, wf.num_inactive_orbs, n, wf.rdm1, wf.rdm2), e, 1e-8, wf=nm, cas=cas)


def run_formula(s, m, rng):
    ni, na, nv = s["part"]
    N = ni + na + nv
    for rep in range(s["n"]):
        ea = int(rng.integers(0, na + 1))
        eb = ea if rep % 2 == 0 else int(rng.integers(0, na + 1))
        h, g = O.random_integrals(rng, N)
        act = O.Sector(na, ea, eb)
        c = rng.normal(size=act.dim)
        if rep == 3:
            c[:] = 0
            c[int(rng.integers(act.dim))] = 1
        c /= np.linalg.norm(c)
        full = O.Sector(N, ni + ea, ni + eb)
        v = O.embed_active(c, act.dets, N, ni, na, full)
        r1, r2 = O.rdm1(act, c, c), O.rdm2(act, c, c)
        m.case({"formula": s["part"], "elec": [ea, eb], "rep": rep, "h00": float(h[0, 0])}, act.dim > 1)
        H = full.hamiltonian(h, g)
        ctx = {"part": s["part"], "elec": [ea, eb]}
        R1 = O.rdm1(full, v, v)
        R2 = O.rdm2(full, v, v)
        got1 = np.array([[dm.RDM1(p, q, ni, na, r1) for q in range(N)] for p in range(N)])
        m.close("full_rdm1", got1, R1, 1e-9, **ctx)
        got2 = np.array([dm.RDM2(p, q, r, t, ni, na, r1, r2) for p, q, r, t in itertools.product(range(N), repeat=4)]).reshape((N,) * 4)
        m.close("full_rdm2", got2, R2, 1e-9, **ctx)
        m.close("energy_from_rdm", dm.get_electronic_energy(h, g, ni, na, r1, r2), float(v @ (H @ v)), 1e-9, **ctx)
        kap = [(p, q) for p in range(N) for q in range(p + 1, N) if not (q < ni or p >= ni + na)]
        kna = [(p, q) for p, q in kap if not (ni <= p and q < ni + na)]
        Hv = H @ v

        def comm(p, q):  # <[E_pq, H]>
            return float(v @ (full.E(p, q) @ Hv) - Hv @ (full.E(p, q) @ v))

        ka = np.array(kap, dtype=int).reshape(-1, 2)
        m.close("orbital_gradient", dm.get_orbital_gradient(h, g, ka, ni, na, r1, r2), [comm(p, q) - comm(q, p) for p, q in kap], 1e-8, **ctx)
        if not kna:
            continue
        kn = np.array(kna, dtype=int)
        f = 2**-0.5
        m.close("response_gradient", dm.get_orbital_gradient_response(h, g, kn, ni, na, r1, r2),
                [f * comm(p, q) for p, q in kna] + [f * comm(q, p) for p, q in kna], 1e-8, **ctx)

        def q2(i, j):  # <[q_i^+, q_j]>, q = E_qp / sqrt 2
            (p, q), (r, t) = kna[i], kna[j]
            A, B = full.E(p, q), full.E(t, r)
            return 0.5 * float((A.T @ v) @ (B @ v) - (B.T @ v) @ (A @ v))

        K = len(kna)
        Sg = np.array([[q2(i, j) for j in range(K)] for i in range(K)])
        m.close("metric_sigma", dm.get_orbital_response_metric_sigma(kn, ni, na, r1), Sg, 1e-9, **ctx)
        nex = K + int(rng.integers(0, 3))
        vec = rng.normal(size=(2 * nex, 3))
        st = int(rng.integers(0, 3))
        Z, Y = vec[:K, st], vec[nex:nex + K, st]
        m.close("response_norm", dm.get_orbital_response_vector_norm(kn, ni, na, r1, vec, st, nex), float(Z @ Sg @ Z - Y @ Sg @ Y), 1e-8, **ctx)
        X = rng.normal(size=(N, N))
        X = X + X.T
        Xf = full.one_body(X)
        Xv = Xf @ v
        cx = np.array([float(v @ (full.E(p, q) @ Xv) - Xv @ (full.E(p, q) @ v)) for p, q in kna])
        m.close("property_gradient", dm.get_orbital_response_property_gradient(X, kn, ni, na, r1, vec, st, nex), float(f * (Y - Z) @ cx), 1e-8, **ctx)

        def dbl(t, u, a, b):  # <[E_tu,[H,E_ab]]>
            A, B = full.E(t, u), full.E(a, b)
            Bv, BTv, Av, ATv = B @ v, B.T @ v, A @ v, A.T @ v
            return float(ATv @ (H @ Bv) - ATv @ (B @ Hv) - Hv @ (B @ Av) + BTv @ (H @ Av))

        if full.dim <= 120 or rep < 2:
            A = np.array([[0.5 * dbl(p, q, t, r) for (r, t) in kna] for (p, q) in kna])
            B = np.array([[0.5 * dbl(p, q, r, t) for (r, t) in kna] for (p, q) in kna])
            m.close("hessian_A", dm.get_orbital_response_hessian_block(h, g, kn, kn[:, ::-1].copy(), ni, na, r1, r2), A, 1e-8, **ctx)
            m.close("hessian_B", dm.get_orbital_response_hessian_block(h, g, kn, kn, ni, na, r1, r2), B, 1e-8, **ctx)
            m.close("hessian_A", dm.get_orbital_response_hessian_block(h, g, kn[:, ::-1].copy(), kn, ni, na, r1, r2),
                    np.array([[0.5 * dbl(q, p, r, t) for (r, t) in kna] for (p, q) in kna]), 1e-8, **ctx)
