"""P25 circuit wave functions: random histories against a model, gradients and objectives at the optimiser boundary, conversion from state-vector objects."""
import copy

import numpy as np

from checks import p19
from lib import circ, hist, mols, qmap
from lib import oracle as O

RULE = ("random histories on circuit wave functions (ansaetze, three encodings, with/without transpilation and active-active rotations): setting parameters and orbital rotations, wrong lengths, mutation of lists handed in or out, "
        "short optimisations with five optimisers, probing of the objective and the parameter-shift gradient at the scipy boundary, primitive changes, pre-measured density matrices, reads in random order; after every operation the object is "
        "compared with a model (own exponentials, own energies and density matrices); conversion of state-vector objects with a history of their own; a case is one history prefix")
ASSUMPTIONS = ["exact (noiseless, infinite shot) Aer sampler", "orbital rotation parameters are relative to the previously set ones"]
REQUIRED = {"energy": 90, "rdm": 48, "rdm_high": 10, "orbitals": 48, "orthonormal": 48, "integrals": 36, "parameters_read_back": 48, "rejected": 7, "own_lists": 3, "after_optimisation": 6, "not_uphill": 2, "objective": 12, "gradient_theta": 18,
            "gradient_kappa": 12, "captured_stage": 6, "primitive_changed": 2, "earlier_values": 18, "converted": 12, "conversion_independent": 3, "fresh_object": 12, "caller_inputs": 7}
JOBS = 7
KINDS = [("tups", {"n_layers": 1}), ("tups", {"n_layers": 2, "skip_last_singles": True}), ("qnp", {"n_layers": 1}), ("fuccsd", {}), ("ksafupccgsd", {"n_layers": 1}), ("fucc", {"n_layers": 1, "S": True, "pD": True}), ("sdsfuccsd", {})]
CAS = [((2, 2), 4), ((2, 2), 2), ((2, 3), 4), ((4, 3), 4)]


def load():
    global UPS, SAUPS, SAC, convert
    p19.load()
    from slowquant.qiskit_interface.circuit_wavefunction_from_ups import circuit_wavefunction_from_ups as convert
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS as UPS
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS as SAUPS


def warm():
    pass


def scenarios(tier, seed):
    out = []
    big = tier != "quick"
    for r in range(1 if not big else 6):
        for c in range(len(CAS)):
            for j in range(len(KINDS)):
                if not big and c >= 2 and (j + c + seed) % 4:
                    continue
                out.append({"id": f"h-{KINDS[j][0]}{j}-{CAS[c]}-{r}", "kind": "hist", "j": j, "c": c, "enc": p19.ENC[(j + c + r + seed) % 3], "isa": (j + 2 * c + r) % 5 == 0 and c < 2, "steps": (10 if c < 2 else 5) if not big else 20})
                if out[-1]["isa"]:
                    out[-1]["steps"] //= 2
        for i in range(2 if not big else 4):
            out.append({"id": f"high-{i}-{r}", "kind": "high", "c": 3, "enc": qmap.TAP if i < 3 else qmap.JW, "isa": False})
        for i in range(6 if not big else 10):
            out.append({"id": f"conv-{i}-{r}", "kind": "conv", "i": i, "enc": p19.ENC[(i + seed) % 3], "c": i % 3})
    return sorted(out, key=lambda s: -CAS[s["c"]][0][1])


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def kwargs(s, cas, rng):
    if not s.get("isa"):
        return {}
    nq = 2 * cas[1] - (2 if s["enc"] == qmap.TAP else 0)
    return {"ISA": True, "pass_manager_options": {"backend": p19.backend(nq, rng), "optimization_level": int(rng.integers(0, 3)), "seed_transpiler": int(rng.integers(1000))}}


def run_hist(s, m, rng):
    nm, opt = KINDS[s["j"]]
    cas, nh = CAS[s["c"]]
    cas = tuple(cas)
    mol = mols.hydrogens(rng, nh)
    C = mols.random_mo(rng, mol, [None, 0.3][int(rng.integers(2))])
    C0 = C.copy()
    act = bool(rng.integers(2))
    ne = (cas[0] // 2,) * 2
    opt_in = copy.deepcopy(opt)

    def make(C):
        q = p19.QI(p19.exact(), nm, p19.mapper(s["enc"], ne), ansatz_options=opt_in, **kwargs(s, cas, rng))
        return p19.WFC(cas, C, mol.fresh_mole(), q, include_active_kappa=act)

    with hist.quiet():
        wf = make(C)
        sv = UPS(cas, C0.copy(), mol.mole, nm, dict(opt), include_active_kappa=act)
    M = hist.Model(sv, mol, C0)
    cfg = {"ansatz": nm, "opt": opt, "cas": cas, "nh": nh, "act": act, "enc": s["enc"], "isa": s["isa"]}
    m.case({**cfg, "h": "fresh"}, False)
    ok = m.true("parameters_read_back", len(wf.thetas) == len(M.thetas) and len(wf.kappa) == len(M.kappa) and [tuple(x) for x in wf.kappa_idx] == M.kidx, n=[len(wf.thetas), len(M.thetas)], **cfg)
    if not ok:
        return
    circ.drive(m, rng, wf, M, False, s["steps"], cfg, p19.exact, optimisers=("bfgs", "slsqp", "rotosolve") + (() if s["isa"] else ("cobyla",)), probes=s["c"] < 3)
    m.close("caller_inputs", C, C0, 0.0, what="mo_coeffs", **cfg)
    m.true("caller_inputs", opt_in == opt, what="options", got=opt_in, **cfg)
    with hist.quiet():
        f = make(np.array(wf.c_mo))
        f.thetas = [float(x) for x in wf.thetas]
        for what in ("energy_elec", "rdm1", "c_mo", "h_mo") + (("rdm2",) if cas[1] < 3 else ()):
            m.close("fresh_object", np.array(getattr(wf, what)), np.array(getattr(f, what)), 1e-7, what=what, **cfg)


def run_high(s, m, rng):
    """Three- and four-electron density matrices (nonzero from three and four active electrons on) along a history."""
    cas, nh = CAS[s["c"]]
    mol = mols.hydrogens(rng, nh)
    C = mols.random_mo(rng, mol, 0.3)
    nm, opt = [("tups", {"n_layers": 1}), ("ksafupccgsd", {"n_layers": 1})][int(rng.integers(2))]
    with hist.quiet():
        wf = p19.WFC(cas, C.copy(), mol.fresh_mole(), p19.QI(p19.exact(), nm, p19.mapper(s["enc"], (2, 2)), ansatz_options=dict(opt)))
        sv = UPS(cas, C.copy(), mol.mole, nm, dict(opt))
    M = hist.Model(sv, mol, C)
    log = []
    todo = ["rdm4", "rdm3"] if rng.random() < 0.5 else ["rdm3", "rdm4"]
    for step in ["thetas", "thetas", str(rng.choice(["kappa", "precalc", "primitive", "optimise"]))]:
        log.append(step)
        if step == "thetas":
            t = hist.random_list(rng, len(M.thetas), 1.5)
            wf.thetas = t
            M.set_thetas(t)
        elif step == "kappa":
            k = hist.random_list(rng, len(M.kappa), 0.5)
            wf.kappa = k
            M.set_kappa(k)
        else:
            with hist.quiet():
                if step == "precalc":
                    wf.precalc_rdm_paulis(4)
                elif step == "primitive":
                    wf.change_primitive(p19.exact())
                else:
                    wf.run_wf_optimization_1step("bfgs", False, maxiter=1)
            M.set_thetas(wf.thetas)
        m.case({"high": True, "log": log, "t": float(M.thetas[0])})
        for r in todo + ["energy"]:
            circ.read(m, wf, M, r, {"ansatz": nm, "cas": cas, "log": list(log), "enc": s["enc"]}, False)


def run_conv(s, m, rng):
    """Conversion of a state-vector object that has a history."""
    cas, nh = CAS[s["c"]]
    cas = tuple(cas)
    mol = mols.hydrogens(rng, nh)
    C = mols.random_mo(rng, mol, 0.3)
    act = bool(rng.integers(2))
    ne = (cas[0] // 2,) * 2
    sa = s["i"] % 3 == 2
    enc = qmap.JW if sa else s["enc"]
    nm, opt = KINDS[int(rng.integers(6 if not sa else 5))] if not sa or rng.random() < 0.5 else KINDS[5]
    while sa and nm == "fuccsd":
        nm, opt = KINDS[int(rng.integers(5))]
    opt = dict(opt)
    if nm == "tups" and not sa and enc == qmap.JW and rng.random() < 0.5:
        opt["do_pp"] = True
    with hist.quiet():
        if sa:
            st, ref = hist.random_sa_states(rng, O.sector(cas[1], *ne), cas[1], 2, "pairs")
            src = SAUPS(cas, C, mol.fresh_mole(), st, nm, opt, include_active_kappa=act)
        else:
            src = UPS(cas, C, mol.fresh_mole(), nm, opt, include_active_kappa=act)
    M = hist.Model(src, mol, src.c_mo)
    for _ in range(3):
        t = hist.random_list(rng, len(M.thetas), 1.5)
        src.thetas = t
        M.set_thetas(t)
        if len(M.kappa):
            k = hist.random_list(rng, len(M.kappa), 0.5)
            src.kappa = k
            M.set_kappa(k)
        if rng.random() < 0.5:
            float(src.sa_energy if sa else src.energy_elec)
    cfg = {"ansatz": nm, "opt": opt, "cas": cas, "act": act, "enc": enc, "sa": sa}
    m.case({**cfg, "t": t[:2]})
    with hist.quiet():
        wf = convert(src, p19.exact(), p19.mapper(enc, ne), **kwargs({**s, "isa": s["i"] % 2 == 1 and not sa}, cas, rng))
    e = lambda w: float(w.sa_energy if sa else w.energy_elec)
    m.close("converted", e(wf), M.energy(), 1e-7, **cfg)
    m.close("converted", np.array(wf.c_mo), M.C, 1e-9, what="orbitals", **cfg)
    m.close("converted", list(wf.thetas), M.thetas, 1e-12, what="parameters", **cfg)
    m.close("converted", np.array(wf.rdm1), M.rdm1(), 1e-7, what="rdm1", **cfg)
    if cas[1] < 3:
        m.close("converted", np.array(wf.rdm2), M.rdm2(), 1e-7, what="rdm2", **cfg)
    m.true("converted", [tuple(x) for x in wf.kappa_idx] == M.kidx, what="rotations", **cfg)
    # both live on independently
    t2 = hist.random_list(rng, len(M.thetas), 1.5)
    wf.thetas = t2
    if len(M.kappa):
        wf.kappa = hist.random_list(rng, len(M.kappa), 0.4)
    m.close("conversion_independent", e(src), M.energy(), 1e-8, why="source changed by the converted object", **cfg)
    M2 = hist.Model(src, mol, M.C)
    M2.set_thetas(t2)
    if len(M.kappa):
        M2.set_kappa([float(x) for x in wf.kappa])
    src.thetas = hist.random_list(rng, len(M.thetas), 1.0)
    m.close("conversion_independent", e(wf), M2.energy(), 1e-7, why="converted object changed by the source", **cfg)
