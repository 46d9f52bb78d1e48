"""P17 linear-response matrices: every element against the commutator expectation values that define the formulation."""
import importlib

import numpy as np

from lib import hist, lr, lrcases

RULE = ("all eight response formulations on stationary wave functions (UCC and UPS ansaetze, random molecules, orbitals randomly rotated within each orbital space so that nothing vanishes by symmetry), excitation "
        "manifolds S..SDTQ56; every element of A, B, Sigma, Delta compared with symmetrised double commutators evaluated on full-space vectors; a case is one (wave function, formulation, manifold)")
ASSUMPTIONS = ["PySCF integrals and CASSCF orbitals", "the reported ordering of the excitation operators is that of q_ops and G_ops", "stationary wave functions (orbital gradient < 1e-6)"]
REQUIRED = {"A": 100, "B": 100, "Sigma": 100, "Delta": 100, "manifold": 100, "symmetric": 100, "qG_nonzero": 20, "qq_nonzero": 20, "GG_nonzero": 60, "wf_unchanged": 100, "rejects_nonstationary": 8, "repeat": 10}

WFS = [("UCC", "SD"), ("UPS", "fuccsd"), ("UPS", "tups", {"n_layers": 2}), ("UPS", "fucc", {"S": 1, "D": 1})]
BASE = [("H2", (2, 2)), ("H2", (2, 3)), ("HeH+", (2, 2)), ("HeH+", (2, 3)), ("H4", (2, 2)), ("H4", (2, 3)), ("H4", (4, 3)), ("LiH", (2, 2)), ("LiH", (4, 3)), ("H3+", (2, 2)), ("H3+", (2, 3)), ("H3-", (4, 3)), ("H3-", (2, 2))]


def load():
    global UPS, UCC, LR
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS as UPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC as UCC
    LR = {f: importlib.import_module(f"slowquant.unitary_coupled_cluster.linear_response.{f}").LinearResponse for f in lr.FORMS}


def warm():
    pass


def scenarios(tier, seed):
    out = []
    k = 1 if tier == "quick" else 5
    for r in range(k):
        for i, (mn, cas) in enumerate(BASE):
            wfs = [WFS[(i + r) % 2], WFS[2]] if tier == "quick" else WFS[:3]
            for w in wfs:
                if w[1] == "tups" and cas in ((4, 3),):
                    w = ("UPS", "tups", {"n_layers": 3})
                out.append({"id": f"{mn}-{cas}-{w[0]}{w[1]}-{r}", "mol": mn, "cas": list(cas), "wf": list(w), "exc": ["SD"] if (i + r) % 3 else ["SD", "S", "D"]})
    for r in range(1 if tier == "quick" else 3):
        out.append({"id": f"H4-44-UCC-{r}", "mol": "H4", "cas": [4, 4], "wf": ["UCC", "SDTQ"], "exc": ["SDTQ", "SDT"] if tier == "quick" else ["SDTQ", "SDT", "TQ", "SD"]})
    return out


def pad(exp, order):
    idx = [o[0] for o in order]
    sg = np.array([o[1] for o in order])
    return idx, sg


def expected(sp, form, exc, d, lrobj, m, rng, ctx):
    """Reference matrices in the code's operator order, or None if the manifold is wrong."""
    qs, Gs = lr.operators(sp, form, exc, d["U"], d["state"])
    qmats = [(("k", p, q), sp.q_op(p, q)) for p, q in sp.q_pairs(form in ("allselfconsistent", "allstatetransfer"))]
    gm = sp.G_list(exc)
    # code's full-space operators act on full-space spin orbitals
    oq = lrcases.match(sp, lrobj.q_ops, qmats, rng)
    og = lrcases.match(sp, lrobj.G_ops, gm, rng)
    ok = all(o is not None for o in oq + og) and sorted(o[0] for o in oq) == list(range(len(qmats))) and sorted(o[0] for o in og) == list(range(len(gm)))
    if not m.true("manifold", ok, nq=[len(lrobj.q_ops), len(qmats)], nG=[len(lrobj.G_ops), len(gm)], **ctx):
        return None
    Rs = [qs[i][1] for i, _ in oq] + [Gs[i][1] for i, _ in og]
    sg = np.array([s for _, s in oq + og])
    A, B, S, D = lr.matrices(Rs, d["H"], d["state"])
    f = np.outer(sg, sg)
    return A * f, B * f, S * f, D * f, Rs, sg


def run(s, m, rng):
    d = lrcases.make(rng, s, UPS, UCC)
    wf, sp = d["wf"], d["space"]
    C0, t0, e0 = np.array(wf.c_mo), list(wf.thetas), float(wf.energy_elec)
    tol = 1e-6 + 300 * d["grad"]
    for exc in s["exc"]:
        for form in lr.FORMS:
            ctx = {"form": form, "exc": exc, "scenario_id": s["id"]}
            m.case({**ctx, "geometry": d["mol"].text, "thetas": d["thetas"]})
            with hist.quiet():
                obj = LR[form](wf, excitations=exc)
            ref = expected(sp, form, exc, d, obj, m, rng, ctx)
            if ref is None:
                continue
            A, B, S, D = ref[:4]
            nq = len(obj.q_ops)
            for name, got, want in (("A", obj.A, A), ("B", obj.B, B), ("Sigma", obj.Sigma, S), ("Delta", obj.Delta, D)):
                m.close(name, np.array(got), want, tol, **ctx)
            m.true("symmetric", all(np.max(np.abs(np.array(X) - np.array(X).T)) < 1e-8 for X in (obj.A, obj.B, obj.Sigma)) and np.max(np.abs(np.array(obj.Delta) + np.array(obj.Delta).T)) < 1e-8, **ctx)
            if nq and len(A) > nq:
                if np.max(np.abs(A[:nq, nq:])) > 1e-3:
                    m._ev("qG_nonzero")
                if np.max(np.abs(A[:nq, :nq])) > 1e-2:
                    m._ev("qq_nonzero")
            if np.max(np.abs(A[nq:, nq:])) > 1e-2:
                m._ev("GG_nonzero")
            m.true("wf_unchanged", np.array_equal(np.array(wf.c_mo), C0) and list(wf.thetas) == t0 and abs(float(wf.energy_elec) - e0) < 1e-12, **ctx)
    with hist.quiet():
        a, b = LR["naive"](wf, excitations="SD"), LR["naive"](wf, excitations="sd")
    m.close("repeat", np.array(a.A), np.array(b.A), 1e-12, why="case of the excitation string / repetition")
    # a point that is not stationary must be refused by the formulations that report the gradient
    t = list(d["thetas"])
    t[int(rng.integers(len(t)))] += 0.4
    wf.thetas = t
    E = d["state"] @ (d["H"] @ d["state"])
    U2 = sp.unitary(d["model"].layout, t, d["model"].ucc)
    st = U2 @ sp.hf
    for form in ("naive", "projected", "selfconsistent", "statetransfer", "allprojected"):
        qs, Gs = lr.operators(sp, "naive" if form in ("naive",) else form, "SD", U2, st)
        g = lr.gradient([r for _, r in qs + Gs], d["H"], st) if form != "x" else None
        if np.max(np.abs(g)) > 1e-2:
            with hist.quiet():
                m.raises("rejects_nonstationary", ValueError, lambda: LR[form](wf, excitations="SD"), form=form, grad=float(np.max(np.abs(g))))
    wf.thetas = d["thetas"]
