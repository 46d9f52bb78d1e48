"""P14 optimisation: the object ends at the optimum it reports."""
import numpy as np

from lib import hist, mols
from lib import oracle as O

RULE = ("every optimiser (bfgs, l-bfgs-b, slsqp, cobyla, cobyqa, rotosolve) x one-/two-step x with/without orbital optimisation x short/long iteration budgets on UPS, UCC and "
        "SA-UPS objects from random starts (orbitals already rotated in half of the runs), followed by a second optimisation: reported energy vs. the oracle energy of the orbitals and "
        "parameters held afterwards, never above the start, never below exact diagonalisation, stationary when a gradient-based run converged; a case is one optimisation run")
ASSUMPTIONS = ["the last iterate of a scipy minimiser is never above its start by more than 1e-7", "runs with at most 3 iterations are not expected to be stationary"]
REQUIRED = {"reported_energy": 250, "not_above_start": 200, "not_below_exact": 200, "orthonormal": 200, "stationary_theta": 30, "stationary_kappa": 15, "continues": 80,
            "orbitals_untouched": 40, "rotation_reset": 40, "spectrum_after": 30}
SCENARIO_TIMEOUT = 400

KINDS = [("tups", {"n_layers": 1}), ("fuccsd", {}), ("ksafupccgsd", {"n_layers": 1}), ("UCC", "SD"), ("SA", ("tups", {"n_layers": 1})), ("SA", ("safuccsd", {}))]
OPTS = ["bfgs", "l-bfgs-b", "slsqp", "cobyla", "cobyqa", "rotosolve"]


def load():
    global UPS, UCC, SAUPS
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS
    UPS, UCC, SAUPS = WaveFunctionUPS, WaveFunctionUCC, WaveFunctionSAUPS


class _Null:
    def __getattr__(self, k):
        return lambda *a, **kw: True


def warm():
    for j in (0, 3, 4):
        run({"j": j, "opt": "l-bfgs-b", "scheme": "1oo", "cas": (2, 2), "nh": 4, "it": 2}, _Null(), np.random.default_rng(0))


def scenarios(tier, seed):
    out = []
    for i in range(1 if tier == "quick" else 8):
        for j, (nm, o) in enumerate(KINDS):
            for op in OPTS:
                for scheme in ("1no", "1oo", "2no", "2oo"):
                    if op == "rotosolve" and (nm == "UCC" or o == ("safuccsd", {}) or scheme == "1oo"):
                        continue
                    if op in ("cobyla", "cobyqa") and scheme == "1oo":
                        continue  # known finding, exercised by the dedicated scenarios below
                    for cas, nh, it in (((2, 2), 4, 300), ((2, 2), 3, 3), ((2, 3), 4, 2)):
                        if op in ("cobyla", "cobyqa") and it > 100 and tier == "quick" and nm == "SA":
                            it = 60
                        if scheme == "2oo" and it == 300 and op in ("cobyla", "cobyqa"):
                            it = 12
                        if scheme == "2oo" and it == 300:
                            it = 8 if op == "rotosolve" else 40
                        out.append({"id": f"{j}-{op}-{scheme}-{cas}-{nh}-{it}-{i}", "j": j, "opt": op, "scheme": scheme, "cas": cas, "nh": nh, "it": it})
    for op in ("cobyla", "cobyqa"):
        for k in range(8):
            out.append({"id": f"gradfree-oo-{op}-{k}", "kind": "gradfree", "opt": op, "k": k})
    out.append({"id": "empty-kappa", "kind": "nokappa"})
    out.sort(key=lambda s: -s.get("it", 0))
    return out


def run(s, m, rng):
    if s.get("kind") == "gradfree":
        return run_gradfree(s, m)
    if s.get("kind") == "nokappa":
        return run_nokappa(s, m, rng)
    nm, o = KINDS[s["j"]]
    cas, nh, op = tuple(s["cas"]), s["nh"], s["opt"]
    mol = mols.hydrogens(rng, nh, charge=nh % 2)
    C = mols.random_mo(rng, mol, 0.25)
    act = bool(rng.integers(2))
    with hist.quiet():
        if nm == "UCC":
            wf = UCC(cas, C, mol.mole, o, include_active_kappa=act)
        elif nm == "SA":
            st, _ = hist.random_sa_states(rng, O.sector(cas[1], cas[0] // 2, cas[0] // 2), cas[1], int(rng.integers(2, 4)), str(rng.choice(["dets", "pairs"])))
            wf = SAUPS(cas, C, mol.mole, st, o[0], dict(o[1]), include_active_kappa=act)
        else:
            wf = UPS(cas, C, mol.mole, nm, dict(o), include_active_kappa=act)
    M = hist.Model(wf, mol, C)
    t = hist.random_list(rng, len(M.thetas), 0.7)
    wf.thetas = t
    M.set_thetas(t)
    if rng.random() < 0.5 and len(M.kappa):
        k = hist.random_list(rng, len(M.kappa), 0.3)
        wf.kappa = k
        M.set_kappa(k)
    oo = s["scheme"][1:] == "oo"
    name = op if rng.random() < 0.8 else op.upper()
    for rnd in range(3 if len(M.kappa) else 2):
        if rnd == 2:  # other orbitals, same ansatz parameters: the next optimisation starts from the new energy
            k = hist.random_list(rng, len(M.kappa), 0.25)
            wf.kappa = k
            M.set_kappa(k)
        cfg = {"wf": nm, "o": o, "opt": op, "scheme": s["scheme"], "cas": cas, "nh": nh, "it": s["it"], "act": act, "round": rnd}
        m.case({**cfg, "t": list(M.thetas)[:3]}, True)
        e0 = M.energy()
        C_before, t_before = M.C.copy(), M.thetas.copy()
        it = s["it"] if rnd == 0 else min(s["it"], 5 if rnd == 1 else 2)
        with hist.quiet():
            if s["scheme"][0] == "1":
                wf.run_wf_optimization_1step(name, oo, maxiter=it)
            else:
                wf.run_wf_optimization_2step(name, oo, maxiter=it, is_silent_subiterations=bool(rng.integers(2)))
        e = float(wf.sa_energy if nm == "SA" else wf.energy_elec)
        Cn = np.array(wf.c_mo)
        n = Cn.shape[1]
        m.close("orthonormal", Cn.T @ mol.S @ Cn, np.eye(n), 1e-8, **cfg)
        if not oo:
            m.close("orbitals_untouched", Cn, C_before, 1e-9, **cfg)
        M.C, M.kappa = Cn, np.array(wf.kappa, dtype=float)
        M.set_thetas(wf.thetas)
        if oo:
            # a rotation by zero must not move the orbitals (parameters and orbitals agree on where the object is)
            m.close("rotation_reset", M.kappa, np.zeros(len(M.kappa)), 0.0, **cfg)
            k = [float(x) for x in wf.kappa]
            wf.kappa = k
            m.close("rotation_reset", np.array(wf.c_mo), Cn, 1e-9, why="re-setting the current rotation moved the orbitals", **cfg)
            with_reread = float(wf.sa_energy if nm == "SA" else wf.energy_elec)
            m.close("reported_energy", with_reread, M.energy(), 1e-8, why="re-read", **cfg)
        m.close("reported_energy", e, M.energy(), 1e-8, **cfg)
        m.true("not_above_start", e <= e0 + 1e-7, start=e0, end=e, **cfg)
        ns = len(M.refs)
        w = np.linalg.eigvalsh(M.hamiltonian().toarray())
        m.true("not_below_exact", e >= np.mean(w[:ns]) - 1e-7, end=e, exact=float(np.mean(w[:ns])), **cfg)
        if nm == "SA":
            m.close("spectrum_after", np.array(wf.energy_states), np.linalg.eigvalsh(M.state_matrix()), 1e-8, **cfg)
        else:
            m.close("spectrum_after", wf.rdm1, M.rdm1(), 1e-7, **cfg)
        if rnd == 1:
            m.true("continues", e <= e_first + 1e-7, first=e_first, second=e, **cfg)
        e_first = e
        if rnd == 0 and s["it"] >= 40 and op in ("bfgs", "l-bfgs-b", "slsqp"):
            h = 1e-4

            def dt(i):
                a, b = M.thetas.copy(), M.thetas.copy()
                a[i] += h
                b[i] -= h
                return (M.at(None, a) - M.at(None, b)) / (2 * h)

            def dk(i):
                a, b = M.kappa.copy(), M.kappa.copy()
                a[i] += h
                b[i] -= h
                return (M.at(a, None) - M.at(b, None)) / (2 * h)
            m.close("stationary_theta", [dt(i) for i in range(len(M.thetas))], np.zeros(len(M.thetas)), 2e-3, **cfg)
            if oo:
                m.close("stationary_kappa", [dk(i) for i in range(len(M.kappa))], np.zeros(len(M.kappa)), 2e-3, **cfg)


def run_gradfree(s, m):
    """Gradient-free one-step optimisation with orbitals: fixed inputs, independent of the run's seed (known finding)."""
    rng = np.random.default_rng(1000 + s["k"])
    mol = mols.hydrogens(rng, 4)
    C = mols.random_mo(rng, mol, 0.2)
    wf = UPS((2, 2), C, mol.mole, "tups", {"n_layers": 1}, include_active_kappa=True)
    wf.thetas = hist.random_list(rng, len(wf.thetas), 0.5)
    M = hist.Model(wf, mol, C)
    M.set_thetas(wf.thetas)
    e0 = M.energy()
    m.case({"gradient_free_orbital_optimisation": s["opt"], "input": s["k"]}, True)
    with hist.quiet():
        wf.run_wf_optimization_1step(s["opt"], True, maxiter=60)
    M.C = np.array(wf.c_mo)
    M.kappa = np.array(wf.kappa, dtype=float)
    M.set_thetas(wf.thetas)
    m.close("reported_energy", float(wf.energy_elec), M.energy(), 1e-8)
    m.close("orthonormal", M.C.T @ mol.S @ M.C, np.eye(4), 1e-8)
    if (s["opt"], s["k"]) == ("cobyla", 1):  # the objective seen by the optimiser depends on the order of its evaluations: recorded on one input only
        m.true("gradient_free_not_above_start", float(wf.energy_elec) <= e0 + 1e-7, start=e0, end=float(wf.energy_elec), opt=s["opt"], input=s["k"])


def run_nokappa(s, m, rng):
    mol = mols.hydrogens(rng, 2)
    for op in ("bfgs", "l-bfgs-b", "slsqp", "rotosolve", "cobyla"):
        for two in (False, True):
            wf = UPS((2, 2), mol.rhf_mo, mol.mole, "fuccsd", {})
            m.case({"nokappa": op, "two": two}, True)
            with hist.quiet():
                (wf.run_wf_optimization_2step if two else wf.run_wf_optimization_1step)(op, True, maxiter=300)
            M = hist.Model(wf, mol, mol.rhf_mo)
            M.set_thetas(wf.thetas)
            m.close("reported_energy", float(wf.energy_elec), M.energy(), 1e-8, op=op, two=two)
            if op != "cobyla":
                m.close("exact_ground_state", float(wf.energy_elec), float(np.linalg.eigvalsh(M.hamiltonian().toarray())[0]), 1e-5, op=op, two=two)
