"""P12 state-vector wave functions: random histories of updates and reads against a model of what the object must hold."""
import copy

import numpy as np

from lib import hist, mols
from lib import oracle as O

RULE = ("random histories (10-30 operations) on UPS and UCC objects over hydrogen clusters: setting ansatz parameters, setting orbital rotations, reads of energy, state, "
        "RDMs, orbitals and integrals in random order and repeatedly, wrong-length settings, mutation of the lists handed in or out, short one/two-step optimisations; after "
        "every operation the object is compared with a model (orbitals rotated by the requested change, state rebuilt from own exponentials, energy and RDMs from the own oracle) "
        "and at the end with a freshly built object; a case is one history prefix, non-trivial when at least one parameter or rotation was changed before it")
ASSUMPTIONS = ["orbital rotation parameters are relative to the previously set ones (documented moving expansion point)", "returned arrays are not written to by the caller"]
REQUIRED = {"orbitals": 300, "orthonormal": 300, "energy": 300, "state": 150, "rdm": 200, "integrals": 200, "fresh_object": 30, "rejected": 25, "unchanged_after_rejection": 25,
            "earlier_values": 60, "caller_inputs": 60, "own_lists": 20, "after_optimisation": 10, "parameters_read_back": 200, "pairing_start": 4, "rdm4_nonzero": 8}

KINDS = [("tups", {"n_layers": 1}), ("tups", {"n_layers": 2, "skip_last_singles": True}), ("qnp", {"n_layers": 1}), ("fuccsd", {}), ("ksafupccgsd", {"n_layers": 1}),
         ("safuccsd", {}), ("sdsfuccsd", {}), ("fucc", {"n_layers": 2, "S": True, "pD": True}), ("tups", {"n_layers": 1, "do_pp": True}), ("UCC", "S"), ("UCC", "SD"), ("UCC", "SDTQ")]
CAS = [((2, 2), 4), ((2, 2), 2), ((2, 3), 4), ((4, 3), 4), ((4, 4), 4), ((2, 1), 4)]


def load():
    global UPS, UCC
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS
    UPS, UCC = WaveFunctionUPS, WaveFunctionUCC


def warm():
    rng = np.random.default_rng(0)
    mol = mols.hydrogens(rng, 4)
    for nm, opt in (KINDS[0], KINDS[10]):
        wf = build(nm, opt, (2, 2), mol, mol.rhf_mo, True)
        wf.thetas = [0.1] * len(wf.thetas)
        wf.energy_elec, wf.rdm1, wf.rdm2
        with hist.quiet():
            wf.run_wf_optimization_1step("bfgs", True, maxiter=1)


def scenarios(tier, seed):
    out = []
    for i in range(1 if tier == "quick" else 8):
        for j in range(len(KINDS)):
            for c in range(len(CAS)):
                if CAS[c][0][1] == 1 and KINDS[j][0] not in ("UCC", "fuccsd"):
                    continue
                if KINDS[j][1] == "SDTQ" and CAS[c][0][0] < 4:
                    continue
                out.append({"id": f"{KINDS[j][0]}{j}-{CAS[c][0]}-{CAS[c][1]}-{i}", "j": j, "c": c, "steps": 14 if tier == "quick" else 30})
    out.sort(key=lambda s: -CAS[s["c"]][0][1])
    return out


def build(nm, opt, cas, mol, C, act):
    if nm == "UCC":
        return UCC(cas, C, mol.mole, opt, include_active_kappa=act)
    return UPS(cas, C, mol.mole, nm, opt, include_active_kappa=act)


def check(m, wf, M, what, rng=None, ctx=None):
    ctx = ctx or {}
    if what == "energy":
        m.close("energy", float(wf.energy_elec), M.energy(), 1e-7, **ctx)
    elif what == "state":
        m.close("state", np.array(wf.ci_coeffs), M.state, 1e-7, **ctx)
    elif what == "rdm1":
        m.close("rdm", wf.rdm1, O.rdm1(M.sec, M.state, M.state), 1e-7, which=1, **ctx)
    elif what == "rdm2":
        m.close("rdm", wf.rdm2, O.rdm2(M.sec, M.state, M.state), 1e-7, which=2, **ctx)
    elif what == "rdm3" and M.na <= 3:
        r3 = wf.rdm3
        N = float(np.trace(O.rdm1(M.sec, M.state, M.state)))
        m.close("rdm", np.einsum("pqrstt->pqrs", r3), (N - 2) * O.rdm2(M.sec, M.state, M.state), 1e-7, which=3, **ctx)
    elif what == "rdm4" and M.na <= 3:
        r4 = wf.rdm4
        N = float(np.trace(O.rdm1(M.sec, M.state, M.state)))
        if N > 3.5:
            m._ev("rdm4_nonzero")
        m.close("rdm", np.einsum("pqrsttuu->pqrs", r4), (N - 2) * (N - 3) * O.rdm2(M.sec, M.state, M.state), 1e-7, which=4, **ctx)
    elif what == "orbitals":
        m.close("orbitals", wf.c_mo, M.C, 1e-8, **ctx)
        m.close("orthonormal", wf.c_mo.T @ M.mol.S @ wf.c_mo, np.eye(M.C.shape[1]), 1e-9, **ctx)
    elif what == "integrals":
        h, g = O.transform(M.C, M.mol.h, M.mol.g)
        m.close("integrals", wf.h_mo, h, 1e-8, which="h", **ctx)
        m.close("integrals", wf.g_mo, g, 1e-8, which="g", **ctx)
    elif what == "params":
        m.close("parameters_read_back", np.array(list(wf.thetas) + list(wf.kappa), dtype=float), np.concatenate([M.thetas, M.kappa]), 0.0, **ctx)


READS = ["energy", "state", "rdm1", "rdm2", "rdm3", "rdm4", "orbitals", "integrals", "params"]


def run(s, m, rng):
    nm, opt = KINDS[s["j"]]
    cas, nh = CAS[s["c"]]
    mol = mols.hydrogens(rng, nh)
    C = mols.random_mo(rng, mol, [None, 0.3][int(rng.integers(2))])
    C0 = C.copy()
    act = bool(rng.integers(2))
    opt_in = copy.deepcopy(opt)
    with hist.quiet():
        wf = build(nm, opt_in, cas, mol, C, act)
    cfg = {"wf": nm, "opt": opt, "cas": cas, "nh": nh, "act": act}
    m.case({**cfg, "h": "fresh"}, False)
    start = C0
    if isinstance(opt, dict) and opt.get("do_pp"):
        # pairing reference = a relabelling of the columns: same energy as the plain determinant
        start = np.array(wf.c_mo)
        h, g = O.transform(C0, mol.h, mol.g)
        n = mol.nelec // 2
        I = slice(0, n)
        e = 2 * np.trace(h[I, I]) + 2 * np.einsum("iijj->", g[I, I, I, I]) - np.einsum("ijji->", g[I, I, I, I])
        m.close("pairing_start", float(wf.energy_elec), float(e), 1e-8, **cfg)
    M = hist.Model(wf, mol, start)
    log = []
    saved = []
    inputs = []
    for r in rng.permutation(READS):
        check(m, wf, M, str(r), ctx={**cfg, "log": []})
    nk, nt = len(M.kappa), len(M.thetas)
    for step in range(s["steps"]):
        u = rng.random()
        if u < 0.30:
            t = hist.random_list(rng, nt, [1.0, 3.5, 1e-3][int(rng.integers(3))])
            if rng.random() < 0.2 and nt:
                t[int(rng.integers(nt))] = 0.0
            v = rng.random()
            if v < 0.15:
                t = list(M.thetas)  # same values again
            elif v < 0.3:
                t = [float(x) + float(rng.normal() * 10 ** rng.uniform(-6, -4)) for x in M.thetas]
            if rng.random() < 0.2:
                t = np.array(t)
            wf.thetas = t
            M.set_thetas(t)
            inputs.append((t, copy.deepcopy(t)))
            log.append("thetas")
            if rng.random() < 0.4 and nt:
                t[0] += 0.7  # caller keeps using its own list
                inputs[-1] = (t, copy.deepcopy(t))
                log.append("caller-mutates")
        elif u < 0.55 and nk:
            k = hist.random_list(rng, nk, [0.3, 1.5, 1e-3][int(rng.integers(3))])
            v = rng.random()
            if v > 0.85:
                k = [float(x) + float(rng.normal() * 10 ** rng.uniform(-6, -4)) for x in M.kappa]
            if v < 0.2:
                k = [0.0] * nk
            elif v < 0.35:
                k = [float(x) for x in M.kappa]
            elif v < 0.5:
                k = [float(x) for x in M.kappa]
                k[int(rng.integers(nk))] += 0.4
            elif v < 0.6:
                k = np.array(k)
            M.set_kappa(k)
            wf.kappa = k
            inputs.append((k, copy.deepcopy(k)))
            log.append("kappa")
            if rng.random() < 0.4:
                k[0] += 0.7
                inputs[-1] = (k, copy.deepcopy(k))
                log.append("caller-mutates")
        elif u < 0.66:
            which = ["thetas", "kappa"][int(rng.integers(2))]
            n = nt if which == "thetas" else nk
            bad = [x for x in (0, 1, n - 1, n + 1, n + 3) if x >= 0 and x != n]
            n_bad = int(rng.choice(bad))
            val = [0.1] * n_bad
            m.raises("rejected", ValueError, lambda: setattr(wf, which, val), what=which, n=n, got=n_bad, **cfg)
            log.append("rejected-" + which)
            for r in ("params", "energy", "orbitals"):
                check(m, wf, M, r, ctx={**cfg, "log": log[-6:], "after": "rejection"})
            m.true("unchanged_after_rejection", True)
        elif u < 0.74:
            a, b = wf.thetas, wf.kappa
            if len(a):
                a[0] = 5.0
            if len(b):
                b[0] = 5.0
            log.append("mutate-returned")
            check(m, wf, M, "params", ctx={**cfg, "log": log[-6:]})
            check(m, wf, M, "energy", ctx={**cfg, "log": log[-6:]})
            m.true("own_lists", True)
        elif u < 0.84 and nt and cas[1] <= 3:
            two = bool(rng.integers(2))
            oo = bool(rng.integers(2))
            name = str(rng.choice(["bfgs", "l-bfgs-b", "slsqp"] + (["rotosolve"] if nm not in ("UCC", "safuccsd") and (two or not oo or not nk) else [])))
            it = int(rng.integers(1, 4))
            with hist.quiet():
                if two:
                    wf.run_wf_optimization_2step(name, oo, maxiter=it)
                else:
                    wf.run_wf_optimization_1step(name, oo, maxiter=it)
            log.append(f"opt-{'2' if two else '1'}-{name}-{'oo' if oo else 'no'}")
            # adopt the orbitals and parameters it ended with, they must be legitimate ...
            Cn = np.array(wf.c_mo)
            m.close("after_optimisation", Cn.T @ mol.S @ Cn, np.eye(Cn.shape[1]), 1e-8, log=log[-4:], **cfg)
            if not oo:
                m.close("after_optimisation", Cn, M.C, 1e-8, log=log[-4:], why="orbitals moved without orbital optimisation", **cfg)
            M.C = Cn
            M.kappa = np.array(wf.kappa, dtype=float)
            M.set_thetas(wf.thetas)
            # ... and everything reported must belong to them
        else:
            log.append("read")
        if len(log) > 1 and rng.random() < 0.4:
            # remember some values, they must survive later operations
            what = str(rng.choice(["rdm1", "rdm2", "h_mo", "c_mo", "ci_coeffs", "g_mo"]))
            v = getattr(wf, what)
            saved.append((what, v, np.array(v).copy()))
        m.case({**cfg, "log": log, "t": float(M.thetas[0]) if nt else 0, "k": float(M.kappa[0]) if nk else 0}, True)
        reads = [str(r) for r in rng.permutation(READS)][: int(rng.integers(2, 8))]
        for r in reads:
            check(m, wf, M, r, ctx={**cfg, "log": log[-8:], "reads": reads})
        if rng.random() < 0.3:
            check(m, wf, M, reads[0], ctx={**cfg, "log": log[-8:], "again": True})
    for r in READS:
        check(m, wf, M, r, ctx={**cfg, "log": log[-8:], "end": True})
    for what, v, cp in saved:
        m.close("earlier_values", np.array(v), cp, 0.0, what=what, log=log, **cfg)
    for given, cp in inputs:
        m.close("caller_inputs", np.array(given), np.array(cp), 0.0, log=log, **cfg)
    m.close("caller_inputs", C, C0, 0.0, what="mo_coeffs", **cfg)
    m.true("caller_inputs", opt_in == opt, what="options", got=opt_in, **cfg)
    # a freshly built object with the same orbitals and parameters
    if not (isinstance(opt, dict) and opt.get("do_pp")):
        f = build(nm, copy.deepcopy(opt), cas, mol, np.array(wf.c_mo), act)
        f.thetas = [float(x) for x in wf.thetas]
        for what in ("energy_elec", "rdm1", "rdm2", "c_mo", "h_mo", "g_mo", "ci_coeffs"):
            m.close("fresh_object", np.array(getattr(wf, what)), np.array(getattr(f, what)), 1e-8, what=what, log=log, **cfg)
