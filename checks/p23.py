"""P23 state-averaged circuits: off-diagonal elements between superposition references, and histories of state-averaged circuit wave functions."""
import copy

import numpy as np
import scipy.linalg

from checks import p19
from lib import circ, gens, hist, mols, qmap
from lib import oracle as O

RULE = ("matrix elements of random Hermitian operators between random superpositions of 1-4 determinants (same and different, both orders, overlapping), evolved by random excitation chains on 2-4 orbitals, for every device option and both "
        "superposition orders, with and without transpilation, stored measurements and grouping; random histories of state-averaged circuit wave functions against the spanned-space model; a case is one matrix element or one history prefix")
ASSUMPTIONS = ["exact (noiseless, infinite shot) Aer sampler", "real superposition coefficients; Hermitian operators (documented)", "degenerate final states are not compared individually"]
REQUIRED = {"element": 60, "swapped": 36, "diagonal": 10, "element_isa": 12, "element_custom_parameters": 12, "superposed": 48, "refuses_other_encodings": 1, "energy": 24, "rdm": 18, "orbitals": 15, "state_energies": 9, "excitation_energies": 9,
            "transition_property": 4, "oscillator_strengths": 4, "parameters_read_back": 15, "rejected": 1, "objective": 2, "gradient_theta": 3, "after_optimisation": 1, "matches_statevector_class": 4, "fresh_object": 4}
JOBS = 8
SCENARIO_TIMEOUT = 700
KINDS = [("tups", {"n_layers": 1}), ("qnp", {"n_layers": 1}), ("fucc", {"n_layers": 1, "S": True, "D": True}), ("ksafupccgsd", {"n_layers": 1}), ("ksasdsfupccgsd", {"n_layers": 1})]
CAS = [((2, 2), 4), ((2, 2), 2), ((2, 3), 4)]


def load():
    global SAUPS, SAC
    p19.load()
    from slowquant.qiskit_interface.sa_circuit_wavefunction import WaveFunctionSACircuit as SAC
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS as SAUPS


def warm():
    pass


def scenarios(tier, seed):
    big = tier != "quick"
    out = []
    for r in range(1 if not big else 8):
        for c in range(len(CAS)):
            for j in range(len(KINDS)):
                if c == 2 and not big and (j + seed) % 5 != 0:
                    continue
                out.append({"id": f"h-{KINDS[j][0]}-{CAS[c]}-{r}", "kind": "hist", "j": j, "c": c, "isa": j == seed % 2 and c == 1, "steps": (4 if c == 0 else 5 if c == 1 else 1) if not big else 12})
                if out[-1]["isa"]:
                    out[-1]["steps"] = 1 if not big else 4
    for i in range(12 if not big else 72):
        n = [2, 3, 2, 3, 4, 2][i % 6]
        out.append({"id": f"el-{n}-{i}", "kind": "el", "n": n, "isa": i % 6 in (1, 2), "count": {2: 14, 3: 8, 4: 4}[n] if i % 6 not in (1, 2) else 4, "mode": ["plain", "plain", "nosave", "nogroup"][i % 4]})
    return sorted(out, key=lambda s: (s["kind"] != "hist", -s.get("c", 0)))


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def dets(n, na, nb):
    return [format(x, f"0{2 * n}b") for x in O.sector(n, na, nb)]


def run_el(s, m, rng):
    n = s["n"]
    na = int(rng.integers(1, n))
    sec = O.Sector(n, na, na)
    basis = [int(x) for x in sec.dets]
    pool = all_excitations(n)
    pick = [pool[int(rng.integers(len(pool)))] for _ in range(int(rng.integers(1, 5)))]
    lay = p19.layout([p[0] for p in pick], [p[1] for p in pick])
    kw = {}
    if s["isa"]:
        kw = {"ISA": True, "pass_manager_options": {"backend": p19.backend(2 * n, rng), "optimization_level": int(rng.integers(0, 3)), "seed_transpiler": int(rng.integers(1000))}}
    q = p19.interface(lay, qmap.JW, n, (na, na), **kw)
    q._save_paulis = s["mode"] != "nosave"
    q._do_cliques = s["mode"] != "nogroup"
    G = [gens.generator(sec, t, i, 0, True) for t, i in pick]
    theta = hist.random_list(rng, len(pick), 2.5)
    with hist.quiet():
        q.parameters = list(theta)

    def U(v, th):
        for x, g in zip(th, G):
            v = scipy.linalg.expm(x * g) @ v
        return v

    def csf():
        k = min(int(rng.choice([1, 2, 2, 3, 4])), len(basis))
        js = rng.choice(len(basis), k, replace=False)
        c = rng.normal(size=k)
        c /= np.linalg.norm(c)
        v = np.zeros(len(basis))
        v[js] = c
        return ([float(x) for x in c], [format(basis[j], f"0{2 * n}b") for j in js]), v

    for it in range(s["count"]):
        if it and rng.random() < 0.25:
            theta = hist.random_list(rng, len(pick), 2.5)
            with hist.quiet():
                q.parameters = list(theta)
        terms = hermitian(rng, n)
        F = p19.fop(terms)
        X = sec.op(terms)
        (bra, vb), (ket, vk) = csf(), csf()
        if rng.random() < 0.2:
            ket, vk = bra, vb
        opt = int(rng.integers(0, 5))
        rev = bool(rng.integers(2))
        cfg = {"n": n, "na": na, "chain": pick, "theta": theta, "bra": bra, "ket": ket, "option": opt, "reverse": rev, "isa": s["isa"], "mode": s["mode"], "op": {str(k): v for k, v in terms.items()}}
        m.case(cfg)
        kb = copy.deepcopy((bra, ket))
        want = float(U(vb, theta) @ (X @ U(vk, theta)))
        with hist.quiet():
            got = float(q.quantum_expectation_value_csfs(bra, F, ket, ISA_csfs_option=opt, reverse_csfs_order=rev))
            got2 = float(q.quantum_expectation_value_csfs(ket, F, bra, ISA_csfs_option=opt, reverse_csfs_order=not rev))
        small = {k: v for k, v in cfg.items() if k not in ("op", "theta")}
        m.close("element_isa" if s["isa"] else "element", got, want, 1e-6, 1e-6, **small)
        m.close("swapped", got2, want, 1e-6, 1e-6, **small)
        m.true("inputs_untouched", (bra, ket) == kb)
        if bra == ket:
            m._ev("diagonal")
        if len(bra[1]) > 1 and len(ket[1]) > 1:
            m._ev("superposed")
        if rng.random() < 0.4:
            th = hist.random_list(rng, len(pick), 2.5)
            with hist.quiet():
                got = float(q.quantum_expectation_value_csfs(bra, F, ket, custom_parameters=th, ISA_csfs_option=opt, reverse_csfs_order=rev))
                back = float(q.quantum_expectation_value_csfs(bra, F, ket, ISA_csfs_option=opt, reverse_csfs_order=rev))
            m.close("element_custom_parameters", got, float(U(vb, th) @ (X @ U(vk, th))), 1e-6, 1e-6, **small)
            m.close("element_custom_parameters", back, want, 1e-6, 1e-6, why="own parameters after custom ones", **small)
    for enc in (qmap.PAR, qmap.TAP):
        if n == 2:
            p = p19.interface(lay, enc, n, (na, na))
            d = format(basis[0], f"0{2 * n}b")
            m.raises("refuses_other_encodings", TypeError, lambda: p.quantum_expectation_value_csfs(([1.0], [d]), F, ([1.0], [d])), enc=enc)


def all_excitations(n):
    """Excitations the circuits are implemented for (indices upwards)."""
    out = []
    for p in range(n):
        for q in range(p + 1, n):
            out.append(("sa_single", (p, q)))
            out += [("single", (2 * p + s, 2 * q + s)) for s in (0, 1)]
            out.append(("double", (2 * p, 2 * p + 1, 2 * q, 2 * q + 1)))
    if n > 2:
        out += [("double", (0, 1, 2, 5)), ("double", (0, 1, 3, 4)), ("double", (0, 3, 4, 5)), ("double", (1, 2, 4, 5))]
    return out


def hermitian(rng, n):
    t = p19.random_terms(rng, n, int(rng.integers(1, 4)))
    out = {}
    for k, v in t.items():
        out[k] = out.get(k, 0.0) + v
        d = tuple((x, not c) for x, c in reversed(k))
        out[d] = out.get(d, 0.0) + v
    return out


def run_hist(s, m, rng):
    nm, opt = KINDS[s["j"]]
    cas, nh = CAS[s["c"]]
    cas = tuple(cas)
    mol = mols.hydrogens(rng, nh)
    C = mols.random_mo(rng, mol, [None, 0.3][int(rng.integers(2))])
    C0 = C.copy()
    act = bool(rng.integers(2))
    ne = (cas[0] // 2,) * 2
    basis = O.sector(cas[1], *ne)
    small = cas[1] < 3 and s["j"] < 3
    st, ref = hist.random_sa_states(rng, basis, cas[1], int(rng.integers(2, 4)) if small else 2, str(rng.choice(["dets", "pairs", "random"])) if small else str(rng.choice(["dets", "pairs"])))
    kw = {}
    if s["isa"]:
        kw = {"ISA": True, "pass_manager_options": {"backend": p19.backend(2 * cas[1], rng), "optimization_level": int(rng.integers(0, 3)), "seed_transpiler": int(rng.integers(1000))}}

    def make(C):
        q = p19.QI(p19.exact(), nm, p19.mapper(qmap.JW, ne), ansatz_options=dict(opt), **kw)
        return SAC(cas, C, mol.fresh_mole(), copy.deepcopy(st), q, include_active_kappa=act)

    with hist.quiet():
        wf = make(C)
        sv = SAUPS(cas, C0.copy(), mol.mole, copy.deepcopy(st), nm, dict(opt), include_active_kappa=act)
    order = [basis.index(int(d)) for d in sv.ci_info.idx2det]
    M = hist.Model(sv, mol, C0, refs=ref[:, order])
    cfg = {"ansatz": nm, "opt": opt, "cas": cas, "nh": nh, "act": act, "isa": s["isa"], "states": st}
    m.case({**cfg, "h": "fresh"}, False)
    ok = m.true("parameters_read_back", len(wf.thetas) == len(M.thetas) and len(wf.kappa) == len(M.kappa) and [tuple(x) for x in wf.kappa_idx] == M.kidx, n=[len(wf.thetas), len(M.thetas)], **cfg)
    if not ok:
        return
    circ.read(m, wf, M, str(rng.choice(circ.SA_READS)), {**cfg, "log": ["fresh"]}, True)
    circ.drive(m, rng, wf, M, True, s["steps"], cfg, p19.exact, optimisers=("bfgs", "slsqp", "rotosolve") if s["j"] < 3 else ("bfgs",), probes=cas[1] < 3 and not s["isa"], first=[0.0, 0.8, 0.7] if s["c"] == 1 and s["j"] < 2 and not s["isa"] else [])
    m.close("orbitals", C, C0, 0.0, why="orbitals handed in changed", **cfg)
    with hist.quiet():
        f = make(np.array(wf.c_mo))
        f.thetas = [float(x) for x in wf.thetas]
        m.close("fresh_object", float(f.sa_energy), float(wf.sa_energy), 1e-7, **cfg)
        m.close("fresh_object", np.array(f.energy_states), np.array(wf.energy_states), 1e-7, **cfg)
        v = SAUPS(cas, np.array(wf.c_mo), mol.mole, copy.deepcopy(st), nm, dict(opt), include_active_kappa=act)
        v.thetas = [float(x) for x in wf.thetas]
        m.close("matches_statevector_class", np.array(wf.energy_states), np.array(v.energy_states), 1e-7, **cfg)
        m.close("matches_statevector_class", np.array(wf.rdm1), np.array(v.rdm1), 1e-7, **cfg)
