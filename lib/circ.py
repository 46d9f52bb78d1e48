"""Random histories on circuit wave functions (single-state and state-averaged) against the model of what they must hold."""
from __future__ import annotations

import copy

import numpy as np

from lib import hist, mols, qmap
from lib import oracle as O


def deriv(M, kap, th, which, i, h=2e-3):
    """Derivative of the model's energy along one parameter at the given point (orbital rotations start from the rotated orbitals there)."""
    C, k, t, s = M.C, M.kappa, M.thetas, M._states
    M.set_kappa(kap)
    M.set_thetas(th)

    def f(d):
        x = np.array(M.kappa if which == "kappa" else M.thetas, dtype=float)
        x[i] += d
        return M.at(x, None) if which == "kappa" else M.at(None, x)
    try:
        return (45 * (f(h) - f(-h)) - 9 * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60 * h)
    finally:
        M.C, M.kappa, M.thetas, M._states = C, k, t, s


def read(m, wf, M, what, ctx, sa):
    if what == "energy":
        if sa:
            m.close("energy", float(wf.sa_energy), M.energy(), 1e-7, **ctx)
        else:
            m.close("energy", float(wf.energy_elec), M.energy(), 1e-7, **ctx)
    elif what == "rdm1":
        m.close("rdm", np.array(wf.rdm1), M.rdm1(), 1e-7, which=1, **ctx)
    elif what == "rdm2":
        m.close("rdm", np.array(wf.rdm2), M.rdm2(), 1e-7, which=2, **ctx)
    elif what == "rdm3":
        N = float(np.trace(M.rdm1()))
        m.close("rdm_high" if N > 2.5 else "rdm_zero", np.einsum("pqrstt->pqrs", np.array(wf.rdm3)), (N - 2) * M.rdm2(), 1e-6, which=3, **ctx)
    elif what == "rdm4":
        N = float(np.trace(M.rdm1()))
        m.close("rdm_high" if N > 2.5 else "rdm_zero", np.einsum("pqrsttuu->pqrs", np.array(wf.rdm4)), (N - 2) * (N - 3) * M.rdm2(), 1e-6, which=4, **ctx)
    elif what == "orbitals":
        m.close("orbitals", wf.c_mo, M.C, 1e-8, **ctx)
        m.close("orthonormal", wf.c_mo.T @ M.mol.S @ wf.c_mo, np.eye(M.C.shape[1]), 1e-9, **ctx)
    elif what == "integrals":
        h, g = O.transform(M.C, M.mol.h, M.mol.g)
        m.close("integrals", wf.h_mo, h, 1e-8, which="h", **ctx)
        m.close("integrals", wf.g_mo, g, 1e-8, which="g", **ctx)
    elif what == "params":
        m.close("parameters_read_back", np.array(list(wf.thetas) + list(wf.kappa), dtype=float), np.concatenate([M.thetas, M.kappa]), 0.0, **ctx)
    elif what == "energies":
        m.close("state_energies", np.array(wf.energy_states), np.linalg.eigvalsh(M.state_matrix()), 1e-7, **ctx)
    elif what == "excitation":
        w = np.linalg.eigvalsh(M.state_matrix())
        m.close("excitation_energies", np.array(wf.excitation_energies), w[1:] - w[0], 1e-7, **ctx)
    elif what in ("transition", "osc"):
        w, V = np.linalg.eigh(M.state_matrix())
        if len(w) < 2 or np.min(np.diff(w)) < 1e-3:
            return
        def tr(ao):
            return V[:, 1:].T @ M.onebody_matrix(ao) @ V[:, 0]
        if what == "transition":
            a = np.array(wf.get_transition_property(M.mol.dip[0] + 0.3 * M.mol.dip[2] + 0.2 * M.mol.h))
            m.close("transition_property", a * a, tr(M.mol.dip[0] + 0.3 * M.mol.dip[2] + 0.2 * M.mol.h) ** 2, 1e-5, **ctx)
        else:
            f = 2 / 3 * (w[1:] - w[0]) * sum(tr(d) ** 2 for d in M.mol.dip)
            m.close("oscillator_strengths", np.array(wf.get_oscillator_strenghts()), f, 1e-5, **ctx)


READS = ["energy", "energy", "rdm1", "rdm2", "orbitals", "integrals", "params"]
SA_READS = READS + ["energies", "excitation", "transition", "osc"]


def reads(sa, na):
    if sa:
        return SA_READS
    return READS + (["rdm3", "rdm4"] if na <= 2 else [])


def probe_optimiser(m, rng, wf, M, scheme, ctx, comps=5):
    """Objective and gradient handed to scipy, compared with the model; the 'optimiser' returns its start."""
    nk, nt = len(M.kappa), len(M.thetas)
    stage = [0]

    def probe(fun, x0, jac, method):
        stage[0] += 1
        kind = "theta" if scheme == "1no" or nk == 0 or (scheme == "2oo" and stage[0] % 2 == 1) else "both" if scheme == "1oo" else "kappa"
        nkk, ntt = (0 if kind == "theta" else nk), (0 if kind == "kappa" else nt)
        ok = m.true("captured_stage", len(x0) == nkk + ntt and callable(jac), kind=kind, n=len(x0), want=nkk + ntt, **ctx)
        if not ok:
            return None
        m.close("captured_stage", x0, np.concatenate([M.kappa if nkk else [], M.thetas if ntt else []]), 1e-12, why="does not start at the current point", kind=kind, **ctx)
        for x in (x0, x0 + rng.uniform(-0.6, 0.6, len(x0))):
            kap, th = (x[:nkk] if nkk else M.kappa), (x[nkk:] if ntt else M.thetas)
            m.close("objective", float(np.mean(fun(x.copy()))), M.at(kap, th), 1e-7, kind=kind, **ctx)
            g = np.array(jac(x.copy()), dtype=float)
            for i in sorted(rng.choice(len(x), min(comps, len(x)), replace=False)):
                w, j = ("kappa", i) if i < nkk else ("theta", i - nkk)
                m.close("gradient_" + w, g[i], deriv(M, kap, th, w, int(j)), 1e-6, kind=kind, i=int(i), **ctx)
            if len(x) > 0 and rng.random() < 0.5:
                m.close("objective", float(np.mean(fun(x.copy()))), M.at(kap, th), 1e-7, kind=kind, why="after the gradient", **ctx)
        fun(x0.copy())
        return x0

    with hist.quiet(), hist.Capture(probe):
        if scheme[0] == "1":
            wf.run_wf_optimization_1step("bfgs", scheme[1:] == "oo")
        else:
            wf.run_wf_optimization_2step("bfgs", True, maxiter=1)


def drive(m, rng, wf, M, sa, steps, cfg, new_primitive, optimisers=("bfgs", "slsqp", "rotosolve", "cobyla"), probes=True, first=()):
    nk, nt = len(M.kappa), len(M.thetas)
    R = reads(sa, M.na)
    log, saved = [], []
    inputs = []
    for step in range(steps):
        u = rng.random() if step >= len(first) else first[step]
        ctx = {**cfg, "log": log[-8:]}
        if u < 0.28 and nt:
            t = hist.random_list(rng, nt, [1.0, 3.5, 1e-3][int(rng.integers(3))])
            if rng.random() < 0.2:
                t = [float(x) for x in M.thetas]
                t[int(rng.integers(nt))] += float(rng.choice([0.5, 1e-4, 1e-5]))
            if rng.random() < 0.2:
                t = np.array(t)
            wf.thetas = t
            M.set_thetas(t)
            log.append("thetas")
            if rng.random() < 0.4:
                t[0] += 0.7
                log.append("caller-mutates")
        elif u < 0.48 and nk:
            k = hist.random_list(rng, nk, [0.3, 1.5, 1e-3][int(rng.integers(3))])
            if rng.random() < 0.3:
                k = [float(x) for x in M.kappa]
                k[int(rng.integers(nk))] += float(rng.choice([0.4, 1e-4, 1e-5]))
            elif rng.random() < 0.2:
                k = [0.0] * nk
            M.set_kappa(k)
            wf.kappa = k
            log.append("kappa")
            if rng.random() < 0.4:
                k[0] += 0.7
                log.append("caller-mutates")
        elif u < 0.58:
            which = ["thetas", "kappa"][int(rng.integers(2))]
            n = nt if which == "thetas" else nk
            bad = int(rng.choice([x for x in (0, 1, n - 1, n + 1) if x >= 0 and x != n]))
            m.raises("rejected", ValueError, lambda: setattr(wf, which, [0.1] * bad), what=which, n=n, got=bad, **ctx)
            log.append("rejected-" + which)
            for r in ("params", "energy", "orbitals"):
                read(m, wf, M, r, {**cfg, "log": log[-6:], "after": "rejection"}, sa)
        elif u < 0.64:
            a, b = wf.thetas, wf.kappa
            if len(a):
                a[0] = 5.0
            if len(b):
                b[0] = 5.0
            log.append("mutate-returned")
            read(m, wf, M, "params", {**cfg, "log": log[-6:]}, sa)
            m._ev("own_lists")
        elif u < 0.76 and nt:
            two, oo = bool(rng.integers(2)), bool(rng.integers(2))
            name = str(rng.choice([o for o in optimisers if o != "rotosolve" or two or not oo or not nk]))
            before = M.energy()
            with hist.quiet():
                getattr(wf, f"run_wf_optimization_{'2' if two else '1'}step")(name, oo, maxiter=int(rng.integers(1, 3 if nt < 5 else 2)) if name != "cobyla" else 40, **({"tol": 1e-4} if name == "cobyla" else {}))
            log.append(f"opt-{'2' if two else '1'}-{name}-{'oo' if oo else 'no'}")
            Cn = np.array(wf.c_mo)
            m.close("after_optimisation", Cn.T @ M.mol.S @ Cn, np.eye(Cn.shape[1]), 1e-8, log=log[-4:], **cfg)
            if not oo:
                m.close("after_optimisation", Cn, M.C, 1e-8, log=log[-4:], why="orbitals moved without orbital optimisation", **cfg)
            M.C, M.kappa = Cn, np.array(wf.kappa, dtype=float)
            M.set_thetas(wf.thetas)
            read(m, wf, M, "energy", {**cfg, "log": log[-6:]}, sa)
            if name in ("bfgs", "slsqp", "rotosolve"):
                m.true("not_uphill", M.energy() < before + 1e-7, before=before, after=M.energy(), log=log[-4:], **cfg)
        elif u < 0.84 and probes and nt:
            scheme = str(rng.choice(["1no", "1oo", "2oo"]))
            probe_optimiser(m, rng, wf, M, scheme, {**cfg, "log": log[-6:], "scheme": scheme})
            M.kappa = np.array(wf.kappa, dtype=float)  # the driver re-zeroes the orbital parameters at the end
            log.append("probe")
            read(m, wf, M, "energy", {**cfg, "log": log[-6:]}, sa)
            read(m, wf, M, "orbitals", {**cfg, "log": log[-6:]}, sa)
        elif u < 0.90:
            with hist.quiet():
                wf.change_primitive(new_primitive(), verbose=bool(rng.integers(2)))
            log.append("primitive")
            m._ev("primitive_changed")
        elif u < 0.94 and not sa:
            with hist.quiet():
                wf.precalc_rdm_paulis(int(rng.integers(1, 3 if M.na > 2 else 5)))
            log.append("precalc")
        else:
            log.append("read")
        if rng.random() < 0.4:
            w = str(rng.choice(["rdm1", "rdm2", "h_mo", "c_mo", "g_mo"]))
            v = getattr(wf, w)
            saved.append((w, v, np.array(v).copy()))
        m.case({**cfg, "log": log, "t": float(M.thetas[0]) if nt else 0, "k": float(M.kappa[0]) if nk else 0}, True)
        todo = [str(r) for r in rng.permutation(R)][: int(rng.integers(1, 5))]
        for r in todo:
            read(m, wf, M, r, {**cfg, "log": log[-8:], "reads": todo}, sa)
    for r in dict.fromkeys(R):
        read(m, wf, M, r, {**cfg, "log": log[-8:], "end": True}, sa)
    for w, v, cp in saved:
        m.close("earlier_values", np.array(v), cp, 0.0, what=w, log=log, **cfg)
    return log
