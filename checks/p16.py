"""P16 state-averaged state-vector wave functions: random histories against the spanned-space oracle."""
import copy

import numpy as np

from lib import hist, mols
from lib import oracle as O

RULE = ("random histories on state-averaged objects (2-5 states: single determinants, pairs, dense superpositions; tUPS, QNP, fUCC, k-SAfUpCCGSD, SAfUCCSD, k-SASDSfUpCCGSD; hydrogen "
        "clusters, an atom and an equilateral ion with symmetry-degenerate states): parameter and orbital updates, short optimisations and reads in random order; after every operation "
        "states, orthonormality, state energies, mean energy, mean RDMs, transition properties of random, overlap and dipole operators and oscillator strengths are compared with the model "
        "of the spanned space, at the end with a freshly built object; a case is one history prefix, non-trivial when the parameters are not all zero")
ASSUMPTIONS = ["phases of final states are free: products of two transition properties and group sums over degenerate states are compared", "transition properties of a degenerate ground state are only checked through the overlap operator"]
REQUIRED = {"states": 150, "orthonormal_states": 150, "state_energies": 150, "mean_energy": 150, "rdm1": 100, "rdm2": 60, "excitation_energies": 80, "transition_products": 200,
            "overlap_transition": 100, "oscillator_strengths": 80, "fresh_object": 20, "degenerate_groups": 10, "earlier_values": 20, "rejected": 15, "bad_states_rejected": 10, "state_permutation": 10}

KINDS = [("tups", {"n_layers": 1}), ("qnp", {"n_layers": 1}), ("fucc", {"n_layers": 1, "S": True, "D": True}), ("ksafupccgsd", {"n_layers": 1}), ("safuccsd", {}), ("ksasdsfupccgsd", {"n_layers": 1}),
         ("tups", {"n_layers": 2, "skip_last_singles": True})]
CAS = [((2, 2), "H4"), ((2, 3), "H4"), ((4, 3), "H4"), ((2, 2), "H2"), ((2, 4), "Be"), ((2, 3), "H3+"), ((4, 4), "H4")]


def load():
    global SAUPS
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS
    SAUPS = WaveFunctionSAUPS


def warm():
    rng = np.random.default_rng(0)
    mol = mols.hydrogens(rng, 4)
    wf = SAUPS((2, 2), mol.rhf_mo, mol.mole, ([[1.0], [1.0]], [["1100"], ["1001"]]), "tups", {"n_layers": 1}, include_active_kappa=True)
    wf.thetas = [0.1] * len(wf.thetas)
    wf.sa_energy, wf.rdm1, wf.rdm2, wf.get_oscillator_strenghts()
    with hist.quiet():
        wf.run_wf_optimization_1step("bfgs", True, maxiter=1)


def scenarios(tier, seed):
    out = []
    for i in range(1 if tier == "quick" else 10):
        for j in range(len(KINDS)):
            for c in range(len(CAS)):
                if KINDS[j][0] == "safuccsd" and CAS[c][1] == "Be" and tier == "quick":
                    continue
                out.append({"id": f"{KINDS[j][0]}{j}-{CAS[c][0]}-{CAS[c][1]}-{i}", "j": j, "c": c, "steps": 9 if tier == "quick" else 24})
    out.sort(key=lambda s: -CAS[s["c"]][0][1])
    return out


def molecule(rng, name):
    if name == "Be":
        return mols.Mol([("Be", (0.1, 0.2, -0.3))], "sto-3g")
    if name == "H3+":
        r = float(rng.uniform(0.8, 1.2))
        return mols.Mol([("H", (0, 0, 0)), ("H", (r, 0, 0)), ("H", (r / 2, r * 3**0.5 / 2, 0))], "sto-3g", charge=1)
    return mols.hydrogens(rng, int(name[1:]))


def groups(w, tol=1e-6):
    out = [[0]]
    for i in range(1, len(w)):
        if w[i] - w[i - 1] < tol:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def clean(w, tol=1e-6, gap=1e-4):
    """No near-degeneracies in the ambiguous zone between equal and separated."""
    d = np.diff(w)
    return not np.any((d > tol * 1e-2) & (d < gap))


class SA:
    """Final states of the spanned space."""

    def __init__(self, M):
        self.M = M
        self.w, self.V = np.linalg.eigh(M.state_matrix())

    def trans(self, ao):
        X = self.M.onebody_matrix(ao)
        return self.V[:, 1:].T @ X @ self.V[:, 0]


def check(m, wf, M, what, rng, ctx):
    n = len(M.refs)
    if what == "states":
        got = np.array(wf.ci_coeffs)
        m.close("states", got, M.states, 1e-7, **ctx)
        m.close("orthonormal_states", got @ got.T, np.eye(n), 1e-9, **ctx)
    elif what == "energies":
        m.close("state_energies", np.array(wf.energy_states), SA(M).w, 1e-7, **ctx)
    elif what == "excitation":
        w = SA(M).w
        m.close("excitation_energies", np.array(wf.excitation_energies), w[1:] - w[0], 1e-7, **ctx)
    elif what == "mean":
        m.close("mean_energy", float(wf.sa_energy), M.energy(), 1e-7, **ctx)
        if rng.random() < 0.4:
            m.close("mean_energy", float(np.mean(wf.energy_states)), M.energy(), 1e-7, why="mean of reported state energies", **ctx)
    elif what == "rdm1":
        m.close("rdm1", wf.rdm1, M.rdm1(), 1e-7, **ctx)
    elif what == "rdm2":
        m.close("rdm2", wf.rdm2, M.rdm2(), 1e-7, **ctx)
    elif what == "orbitals":
        m.close("orbitals", wf.c_mo, M.C, 1e-8, **ctx)
    elif what == "params":
        m.close("parameters_read_back", np.array(list(wf.thetas) + list(wf.kappa), dtype=float), np.concatenate([M.thetas, M.kappa]), 0.0, **ctx)
    elif what == "transition":
        S = SA(M)
        N = M.mol.nelec
        m.close("overlap_transition", np.array(wf.get_transition_property(M.mol.S)), np.zeros(n - 1), 1e-7 * N, **ctx)
        if not clean(S.w):
            return
        gr = groups(S.w)
        if len(gr[0]) > 1:
            m.true("degenerate_groups", True)
            return
        A = rng.normal(size=M.mol.S.shape)
        A = A + A.T
        ops = [A, M.mol.dip[int(rng.integers(3))], M.mol.S + 0.3 * A]
        got = [np.array(wf.get_transition_property(x)) for x in ops]
        want = [S.trans(x) for x in ops]
        for i in range(3):
            for j in range(i, 3):
                for g in gr[1:]:
                    if len(g) > 1:
                        m._ev("degenerate_groups")
                    k = [x - 1 for x in g]
                    m.close("transition_products", float(got[i][k] @ got[j][k]), float(want[i][k] @ want[j][k]), 1e-6, 1e-6, group=g, ops=[i, j], **ctx)
    elif what == "osc":
        S = SA(M)
        if not clean(S.w):
            return
        gr = groups(S.w)
        if len(gr[0]) > 1:
            return
        f = np.zeros(n - 1)
        for d in M.mol.dip:
            f += S.trans(d) ** 2
        f *= 2 / 3 * (S.w[1:] - S.w[0])
        got = np.array(wf.get_oscillator_strenghts())
        for g in gr[1:]:
            k = [x - 1 for x in g]
            m.close("oscillator_strengths", float(np.sum(got[k])), float(np.sum(f[k])), 1e-6, 1e-6, group=g, **ctx)


READS = ["states", "energies", "excitation", "mean", "rdm1", "rdm2", "orbitals", "params", "transition", "osc"]


def run(s, m, rng):
    nm, opt = KINDS[s["j"]]
    cas, molname = CAS[s["c"]]
    cas = tuple(cas)
    mol = molecule(rng, molname)
    sym = molname in ("Be", "H3+")
    C = np.array(mol.rhf_mo) if sym else mols.random_mo(rng, mol, [None, 0.3][int(rng.integers(2))])
    C0 = C.copy()
    act = bool(rng.integers(2))
    dets = O.sector(cas[1], cas[0] // 2, cas[0] // 2)
    if sym:
        # whole shells of excited determinants: reference states that span symmetry-degenerate final states
        gs = "11" * (cas[0] // 2) + "00" * (cas[1] - cas[0] // 2)
        st = ([[1.0]], [[gs]])
        sgn = float(rng.choice([-1, 1])) * 2**-0.5
        lst = [a for a in range(1, cas[1])]
        for a in lst:
            x, y = list("0" * (2 * cas[1])), list("0" * (2 * cas[1]))
            x[0], x[2 * a + 1] = "1", "1"
            y[1], y[2 * a] = "1", "1"
            st[0].append([2**-0.5, sgn])
            st[1].append(["".join(x), "".join(y)])
        ref = np.zeros((len(st[0]), len(dets)))
        for i, (co, de) in enumerate(zip(*st)):
            for c_, d_ in zip(co, de):
                ref[i, dets.index(int(d_, 2))] = c_
    else:
        st, ref = hist.random_sa_states(rng, dets, cas[1], int(rng.integers(2, 6 if len(dets) > 5 else 4)), str(rng.choice(["dets", "pairs", "random"])))
    st_in, opt_in = copy.deepcopy(st), copy.deepcopy(opt)
    wf = SAUPS(cas, C, mol.mole, st_in, nm, opt_in, include_active_kappa=act)
    cfg = {"ansatz": nm, "opt": opt, "cas": cas, "mol": molname, "act": act, "nstates": len(ref)}
    m.case({**cfg, "h": "fresh"}, False)
    order = [dets.index(int(d)) for d in wf.ci_info.idx2det]
    M = hist.Model(wf, mol, C0, refs=ref[:, order])
    m.close("states", np.array(wf.ci_coeffs), M.refs, 1e-12, why="reference states", **cfg)
    nk, nt = len(M.kappa), len(M.thetas)
    log, saved = [], []
    # first thing ever read from a fresh object
    check(m, wf, M, str(rng.choice(READS)), rng, {**cfg, "log": ["fresh"]})
    for step in range(s["steps"]):
        u = rng.random()
        if u < 0.32 and nt:
            t = hist.random_list(rng, nt, [1.0, 3.5, 1e-3][int(rng.integers(3))])
            if sym and rng.random() < 0.6:
                t = [0.0] * nt
            elif rng.random() < 0.2:
                t = [float(x) + float(rng.normal() * 10 ** rng.uniform(-6, -4)) for x in M.thetas]
            wf.thetas = t
            M.set_thetas(t)
            log.append("thetas")
            if rng.random() < 0.3:
                t[0] += 0.7
        elif u < 0.6 and nk:
            k = hist.random_list(rng, nk, [0.3, 1.5, 1e-3][int(rng.integers(3))])
            if rng.random() < (0.7 if sym else 0.2):
                k = [0.0] * nk
            elif rng.random() < 0.2:
                k = np.array(k)
            elif rng.random() < 0.3:
                k = [float(x) + float(rng.normal() * 10 ** rng.uniform(-6, -4)) for x in M.kappa]
            wf.kappa = k
            M.set_kappa(k)
            log.append("kappa")
            if rng.random() < 0.3:
                k[0] += 0.7
        elif u < 0.7:
            which = ["thetas", "kappa"][int(rng.integers(2))]
            n = nt if which == "thetas" else nk
            n_bad = n + int(rng.choice([x for x in (-1, 1, 2) if n + x >= 0]))
            m.raises("rejected", ValueError, lambda: setattr(wf, which, [0.1] * n_bad), what=which, **cfg)
            log.append("rejected")
        elif u < 0.82 and nt and cas[1] <= 3:
            two, oo = bool(rng.integers(2)), bool(rng.integers(2))
            name = str(rng.choice(["bfgs", "l-bfgs-b", "slsqp"] + (["rotosolve"] if nm != "safuccsd" and (two or not oo or not nk) else [])))
            with hist.quiet():
                f = wf.run_wf_optimization_2step if two else wf.run_wf_optimization_1step
                f(name, oo, maxiter=int(rng.integers(1, 4)))
            log.append(f"opt-{2 if two else 1}-{name}-{'oo' if oo else 'no'}")
            if not oo:
                m.close("orbitals", np.array(wf.c_mo), M.C, 1e-8, log=log[-4:], why="moved without orbital optimisation", **cfg)
            M.C, M.kappa = np.array(wf.c_mo), np.array(wf.kappa, dtype=float)
            m.close("orbitals", M.C.T @ mol.S @ M.C, np.eye(M.C.shape[1]), 1e-8, why="orthonormal", **cfg)
            M.set_thetas(wf.thetas)
        else:
            log.append("read")
        if rng.random() < 0.4:
            what = str(rng.choice(["rdm1", "rdm2", "ci_coeffs", "c_mo", "energy_states", "h_mo"]))
            v = getattr(wf, what)
            saved.append((what, v, np.array(v).copy()))
        m.case({**cfg, "log": log, "t": [float(x) for x in M.thetas[:3]]}, bool(np.any(M.thetas)))
        reads = [str(r) for r in rng.permutation(READS)][: int(rng.integers(3, 9))]
        if step == 0:
            reads = [str(r) for r in rng.permutation(READS)]
        for r in reads:
            check(m, wf, M, r, rng, {**cfg, "log": log[-8:], "reads": reads})
    for r in READS:
        check(m, wf, M, r, rng, {**cfg, "log": log[-8:], "end": True})
    for what, v, cp in saved:
        m.close("earlier_values", np.array(v), cp, 0.0, what=what, log=log, **cfg)
    m.true("caller_inputs", st_in == st and opt_in == opt and np.array_equal(C, C0), **cfg)
    f = SAUPS(cas, np.array(wf.c_mo), mol.mole, copy.deepcopy(st), nm, copy.deepcopy(opt), include_active_kappa=act)
    f.thetas = [float(x) for x in wf.thetas]
    for what in ("sa_energy", "energy_states", "rdm1", "rdm2", "ci_coeffs", "h_mo", "g_mo"):
        m.close("fresh_object", np.array(getattr(wf, what)), np.array(getattr(f, what)), 1e-8, what=what, log=log, **cfg)
    # every state alike: the order of the states does not matter
    p = rng.permutation(len(st[0]))
    f = SAUPS(cas, np.array(wf.c_mo), mol.mole, ([list(st[0][i]) for i in p], [list(st[1][i]) for i in p]), nm, copy.deepcopy(opt), include_active_kappa=act)
    f.thetas = [float(x) for x in wf.thetas]
    for what in ("sa_energy", "energy_states", "rdm1", "rdm2"):
        m.close("state_permutation", np.array(getattr(f, what)), np.array(getattr(wf, what)), 1e-8, what=what, perm=[int(x) for x in p], **cfg)
    # states that are not orthonormal are refused
    bad = copy.deepcopy(st)
    if rng.integers(2):
        bad[0][-1] = [x * 0.7 for x in bad[0][-1]]
    else:
        bad[0][-1], bad[1][-1] = list(bad[0][0]), list(bad[1][0])
    m.raises("bad_states_rejected", ValueError, lambda: SAUPS(cas, C0, mol.mole, bad, nm, copy.deepcopy(opt)), **cfg)
