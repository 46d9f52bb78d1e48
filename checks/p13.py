"""P13 gradients handed to the optimiser vs. the energy handed to it and vs. the independent energy."""
import numpy as np

from lib import hist, mols
from lib import oracle as O

RULE = ("the objective and gradient that the optimisation drivers hand to scipy are intercepted at the scipy boundary (one-step with/without orbitals, both stages of two-step, "
        "single-state UPS, UCC and state-averaged UPS, every ansatz kind, with/without active-active rotations) and probed at the start and at random points: objective equals the "
        "oracle's energy of the rotated orbitals and parameters, every gradient component equals the derivative of the objective (6-point central differences); a case is one probed point")
ASSUMPTIONS = ["tolerance 3e-5 for UCC whose documented gradient is a forward difference, 2e-7 otherwise"]
REQUIRED = {"objective": 200, "gradient_theta": 800, "gradient_kappa": 800, "gradient_ucc": 100, "gradient_sa": 200, "captured_stage": 90, "energy_consistent": 80}

KINDS = [("tups", {"n_layers": 2}), ("qnp", {"n_layers": 2}), ("fuccsd", {}), ("ksafupccgsd", {"n_layers": 1}), ("safuccsd", {}), ("sdsfuccsd", {}),
         ("ksasdsfupccgsd", {"n_layers": 1}), ("fucc", {"n_layers": 1, "GS": True, "D": True, "T": True}), ("tups", {"n_layers": 1, "do_pp": True}),
         ("UCC", "SD"), ("UCC", "SDT"), ("SA", ("tups", {"n_layers": 2})), ("SA", ("safuccsd", {})), ("SA", ("ksafupccgsd", {"n_layers": 1}))]
CAS = [((2, 2), 4), ((2, 2), 2), ((2, 3), 4), ((4, 3), 5), ((4, 4), 4)]


def load():
    global UPS, UCC, SAUPS
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS
    UPS, UCC, SAUPS = WaveFunctionUPS, WaveFunctionUCC, WaveFunctionSAUPS


class _Null:
    def __getattr__(self, k):
        return lambda *a, **kw: True


def warm():
    for j in (0, 9, 11):
        run({"j": j, "c": 0, "points": 1}, _Null(), np.random.default_rng(0))


def scenarios(tier, seed):
    out = []
    for i in range(1 if tier == "quick" else 8):
        for j in range(len(KINDS)):
            for c in range(len(CAS)):
                if KINDS[j][1] == "SDT" and CAS[c][0][1] < 3:
                    continue
                if tier == "quick" and CAS[c][0] == (4, 4) and KINDS[j][0] in ("UCC", "fucc"):
                    continue
                out.append({"id": f"{j}-{CAS[c]}-{i}", "j": j, "c": c, "points": 2})
    out.sort(key=lambda s: -CAS[s["c"]][0][1])
    return out


def make(rng, j, c):
    nm, opt = KINDS[j]
    cas, nh = CAS[c]
    mol = mols.hydrogens(rng, nh, charge=nh % 2)
    C = mols.random_mo(rng, mol, [None, 0.3][int(rng.integers(2))])
    act = bool(rng.integers(2))
    with hist.quiet():
        if nm == "UCC":
            wf = UCC(cas, C, mol.mole, opt, include_active_kappa=act)
        elif nm == "SA":
            dets = O.sector(cas[1], cas[0] // 2, cas[0] // 2)
            st, _ = hist.random_sa_states(rng, dets, cas[1], int(rng.integers(1, 4)), str(rng.choice(["dets", "pairs", "random"])))
            wf = SAUPS(cas, C, mol.mole, st, opt[0], dict(opt[1]), include_active_kappa=act)
        else:
            wf = UPS(cas, C, mol.mole, nm, dict(opt), include_active_kappa=act)
    return wf, mol, act


def run(s, m, rng):
    nm, opt = KINDS[s["j"]]
    tol = 3e-5 if nm == "UCC" else 2e-7
    for scheme in ("1no", "1oo", "2oo"):
        wf, mol, act = make(rng, s["j"], s["c"])
        M = hist.Model(wf, mol, wf.c_mo)
        t0 = hist.random_list(rng, len(M.thetas), 1.2)
        wf.thetas = t0
        M.set_thetas(t0)
        if len(M.kappa) and rng.random() < 0.5:
            k0 = hist.random_list(rng, len(M.kappa), 0.5)
            wf.kappa = k0
            M.set_kappa(k0)
        nk, nt = len(M.kappa), len(M.thetas)
        cfg = {"wf": nm, "opt": opt, "cas": CAS[s["c"]], "act": act, "scheme": scheme}
        stage = [0]

        def probe(fun, x0, jac, method):
            stage[0] += 1
            if scheme == "1no" or (scheme == "2oo" and stage[0] % 2 == 1):
                kind, nkk, ntt = "theta", 0, nt
            elif scheme == "1oo":
                kind, nkk, ntt = "both", nk, nt
            else:
                kind, nkk, ntt = "kappa", nk, 0
            if nk == 0:
                kind, nkk, ntt = "theta", 0, nt
            m.true("captured_stage", len(x0) == nkk + ntt and callable(jac), kind=kind, n=len(x0), want=nkk + ntt, **cfg)
            if len(x0) != nkk + ntt or not callable(jac):
                return None
            want0 = np.concatenate([M.kappa if nkk else [], M.thetas if ntt else []])
            m.close("captured_stage", x0, want0, 1e-12, why="optimisation does not start at the current point", kind=kind, **cfg)
            x = x0
            for pt in range(s["points"]):
                m.case({**cfg, "stage": stage[0], "pt": pt, "x": x[:4]}, True)
                e = M.at(x[:nkk] if nkk else None, x[nkk:] if ntt else None)
                m.close("objective", float(np.mean(fun(x.copy()))), e, 1e-8, kind=kind, pt=pt, **cfg)
                g = np.array(jac(x.copy()), dtype=float)
                m.true("gradient_shape", g.shape == x.shape, got=g.shape)
                idx = range(len(x)) if len(x) <= 12 else sorted(rng.choice(len(x), 12, replace=False))
                for i in idx:
                    d = hist.numgrad(fun, x, int(i))
                    nmn = "gradient_sa" if nm == "SA" else "gradient_ucc" if (nm == "UCC" and i >= nkk) else "gradient_kappa" if i < nkk else "gradient_theta"
                    m.close(nmn, g[i], d, tol if i >= nkk else 2e-7, i=int(i), kind=kind, pt=pt, **cfg)
                if pt == 0:
                    # a later point: the gradient must not depend on where the object happens to be
                    y = x0 + rng.uniform(-0.6, 0.6, len(x0))
                    jac(y.copy())
                    m.close("gradient_shape", np.array(jac(x0.copy())), g, tol, why="gradient at x0 after visiting another point", **cfg) if nkk == 0 else None
                    fun(x0.copy())
                    x = y
            M_end = x0
            fun(M_end.copy())
            return M_end

        with hist.quiet(), hist.Capture(probe) as cap:
            if scheme[0] == "1":
                wf.run_wf_optimization_1step("bfgs", scheme[1:] == "oo")
            else:
                wf.run_wf_optimization_2step("bfgs", True, maxiter=1)
        m.true("captured_stage", cap.calls == (2 if scheme == "2oo" and nk else 1), calls=cap.calls, **cfg)
        # a "optimiser" that does not move leaves everything where it was, and the reported energy is the objective's value
        e = float(wf.sa_energy if nm == "SA" else wf.energy_elec)
        m.close("energy_consistent", e, M.energy(), 1e-8, **cfg)
