"""P22 linear response measured on circuits: matrices, spectrum, dipoles and strengths of the five circuit formulations against the double-commutator definition."""
import importlib
import re

import numpy as np

from checks import p17, p19
from lib import hist, lr, lrcases, qmap

RULE = ("circuit wave functions at stationary points of random molecules (orbitals rotated within each space), three encodings, with and without density matrices, stored measurements, grouping and transpilation; every element of A, B, Sigma, "
        "excitation energies, vectors, transition dipoles and strengths of the five formulations against full-space vectors and against the state-vector classes; a case is one (circuit wave function, formulation, manifold)")
ASSUMPTIONS = ["exact (infinite shot) Aer sampler", "PySCF integrals", "stationary wave functions (orbital gradient < 1e-6)", "the ordering of the operators is that of q_ops and G_ops", "isolated states only for dipole tensors, degenerate groups by summed strength"]
REQUIRED = {"manifold": 30, "A": 30, "B": 30, "Sigma": 30, "energies": 20, "normalised": 20, "solves": 20, "dipole_tensor": 18, "strength_formula": 20, "strength_group": 20, "table": 20, "table_before": 20, "refuses_orbitals": 6,
            "matches_statevector_class": 12, "bright": 12, "orbital_part_skipped": 4, "with_orbitals": 10, "no_rdm": 2, "wf_unchanged": 30, "rerun": 4, "operators_only": 2}
JOBS = 7
FORMS = ["naive", "projected", "allprojected", "selfconsistent", "statetransfer"]
WFS = [("UPS", "fuccsd"), ("UPS", "tups", {"n_layers": 2}), ("UPS", "fucc", {"SAS": True, "D": True}), ("UPS", "sdsfuccsd")]
BASE = [("H2", (2, 2)), ("HeH+", (2, 2)), ("HeH+", (2, 3)), ("H4", (2, 2)), ("H3+", (2, 2)), ("H3-", (2, 2)), ("H2b", (2, 2)), ("H3+", (2, 3)), ("H3-", (4, 3)), ("LiH", (2, 2)), ("H4", (4, 3))]


def load():
    global UPS, UCC, LR, QLR
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS as UPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC as UCC
    LR = {f: importlib.import_module(f"slowquant.unitary_coupled_cluster.linear_response.{f}").LinearResponse for f in FORMS}
    QLR = {f: importlib.import_module(f"slowquant.qiskit_interface.linear_response.{f}").quantumLR for f in FORMS}
    p19.load()


def warm():
    pass


def scenarios(tier, seed):
    out = []
    big = tier != "quick"
    k = seed
    for r in range(1 if not big else 5):
        for i, (mn, cas) in enumerate(BASE):
            heavy = mn == "LiH" or cas == (4, 3)
            w = WFS[(i + r + seed) % len(WFS)]
            if cas == (4, 3):
                w = WFS[0] if mn == "H4" else WFS[(i + r + seed) % 2]
                if w[1] == "tups":
                    w = ("UPS", "tups", {"n_layers": 3})
            elif w[1] == "fucc" and cas == (2, 3):
                w = WFS[0]
            forms = [FORMS[:3], FORMS[3:]] if not heavy else ([[FORMS[(k + r) % 3]], FORMS[3:]] if not big else [[f] for f in FORMS[:3]] + [FORMS[3:]])
            if cas == (2, 3) and not big:
                forms = [[FORMS[(k + r) % 3]], FORMS[3:]]
            for fs in forms:
                exc = ["S"] if i == 3 and r % 2 else ["SD"]
                if fs == FORMS[3:] and cas != (2, 2) and not big:  # superposition circuits are slow
                    fs = [FORMS[3 + (i + r) % 2]]
                    exc = ["S" if fs == FORMS[3:4] else "D"]
                out.append({"id": f"{mn}-{cas}-{w[1]}-{fs[0][:4]}-{r}", "mol": mn, "cas": list(cas), "wf": list(w), "exc": exc, "forms": fs, "enc": p19.ENC[(i + r + seed) % 3] if fs[0] not in FORMS[3:] else qmap.JW,
                            "rdm": (i + r) % 3 != 0 or heavy or cas != (2, 2), "mode": ["plain", "nosave", "isa", "nogroup"][(i + r + len(fs)) % 4] if cas == (2, 2) and not heavy else "plain"})
                k += 1
    return sorted(out, key=lambda x: x["cas"] == [2, 2])


def circuit(d, s, rng):
    cas = tuple(s["cas"])
    ne = (cas[0] // 2, cas[0] // 2)
    kw = {"ansatz_options": dict(s["wf"][2]) if len(s["wf"]) > 2 else {}}
    mp = p19.mapper(s["enc"], ne)
    with hist.quiet():
        if s["mode"] == "isa":
            nq = 2 * cas[1] - (2 if s["enc"] == qmap.TAP else 0)
            b = p19.backend(nq, rng)
            kw.update(ISA=True, pass_manager_options={"backend": b, "optimization_level": int(rng.integers(0, 3)), "seed_transpiler": int(rng.integers(1000))})
        q = p19.QI(p19.exact(), s["wf"][1], mp, **kw)
        wf = p19.WFC(cas, d["C"].copy(), d["mol"].fresh_mole(), q)
        wf.thetas = d["thetas"]
    return wf


def run(s, m, rng):
    d = lrcases.make(rng, s, UPS, UCC)
    sp = d["space"]
    mus = [sp.sec.one_body(d["C"].T @ x @ d["C"]) for x in d["mol"].dip]
    wf = circuit(d, s, rng)
    if s["mode"] == "nosave":
        wf.QI._save_paulis = False
    if s["mode"] == "nogroup":
        wf.QI._do_cliques = False
    for exc in s["exc"]:
        for form in s["forms"]:
            one(s, m, rng, d, sp, mus, wf, exc, form)


def one(s, m, rng, d, sp, mus, wf, exc, form):
    ctx = {"form": form, "exc": exc, "enc": s["enc"], "mode": s["mode"]}
    m.case({**ctx, "id": s["id"], "geometry": d["mol"].text, "thetas": d["thetas"]})
    active = form in FORMS[3:]
    C0, E0 = np.array(wf.c_mo), float(wf.energy_elec)
    with hist.quiet():
        o = QLR[form](wf, exc)
        if active:
            if o.num_q:
                m.raises("refuses_orbitals", NotImplementedError, lambda: o.run(skip_orbital_rotations=False), **ctx)
                m._ev("orbital_part_skipped")
            o.run(skip_orbital_rotations=bool(o.num_q), do_gradients=bool(rng.integers(2)))
        elif form == "allprojected":
            o.run(do_gradients=bool(rng.integers(2)))
        else:
            o.run(do_rdm=s["rdm"], do_gradients=bool(rng.integers(2)))
            if not s["rdm"] and len(o.q_ops):
                m._ev("no_rdm")
    ref = p17.expected(sp, form, exc, d, o, m, rng, ctx)
    if ref is None:
        return
    A, B, S, D, Rs, sg = ref
    nq, nG = len(o.q_ops), len(o.G_ops)
    if active:
        A, B, S, D = (x[nq:, nq:] for x in (A, B, S, D))
        Rs, sg = Rs[nq:], sg[nq:]
    elif nq:
        m._ev("with_orbitals")
    tol = 1e-6 + 300 * d["grad"]
    ok = [m.close(n, np.array(g), w, tol, **ctx) for n, g, w in (("A", o.A, A), ("B", o.B, B), ("Sigma", o.Sigma, S))]
    m.true("wf_unchanged", np.array_equal(np.array(wf.c_mo), C0) and list(wf.thetas) == d["thetas"] and abs(float(wf.energy_elec) - E0) < 1e-12, **ctx)
    if not all(ok):
        return
    before = (np.array(o.A), np.array(o.B), np.array(o.Sigma))
    if rng.random() < 0.3:
        with hist.quiet():
            if active:
                o.run(skip_orbital_rotations=bool(o.num_q))
            else:
                o.run()
        m.close("rerun", np.array([o.A, o.B, o.Sigma]), np.array(before), tol, **ctx)
        before = (np.array(o.A), np.array(o.B), np.array(o.Sigma))
    E2 = np.block([[A, B], [B, A]])
    if np.linalg.eigvalsh((E2 + E2.T) / 2)[0] < 1e-3 or np.min(np.abs(np.linalg.eigvals(np.block([[S, D], [-D, -S]])))) < 1e-3:
        m._ev("skipped")
        return
    smin = np.min(np.abs(np.linalg.eigvals(np.block([[S, D], [-D, -S]]))))
    scale = 1 / min(1.0, smin)
    w, v = lr.spectrum(A, B, S, D)
    t = lr.moments([lr.R(lambda x, R=R, g=g: g * R.f(x), lambda x, R=R, g=g: g * R.fd(x)) for R, g in zip(Rs, sg)], v, mus, d["state"])
    with hist.quiet():
        m.raises("table_before", ValueError, o.get_formatted_oscillator_strength, **ctx)
        wg = np.array(o.get_excitation_energies())
        o.get_normed_excitation_vectors()
        tg = np.array(o.get_transition_dipole())
        if active and s["cas"][1] > 2:  # slow: do not measure the dipoles twice
            o.get_transition_dipole = lambda: tg.copy()
        fg = np.array(o.get_oscillator_strength())
        tab = o.get_formatted_oscillator_strength()
    if not m.close("energies", wg, w, 3e-6 * scale, 1e-6 * scale, **ctx):
        return
    x = np.array(o.normed_excitation_vectors)
    E2c = np.block([[before[0], before[1]], [before[1], before[0]]])
    S2c = np.block([[before[2], 0 * before[2]], [0 * before[2], -before[2]]])
    gr = lr.groups(w, 1e-3)
    m.close("solves", E2c @ x, S2c @ x * wg, 1e-5 * scale * max(1.0, wg[-1]), **ctx)
    m.close("normalised", np.einsum("ik,ij,jk->k", x, S2c, x), np.ones(len(w)), 1e-6, **ctx)
    ttol = 3e-5 * scale
    iso = [g for g in gr if len(g) == 1]
    outer = lambda a: np.array([np.outer(a[g[0]], a[g[0]]) for g in iso]).reshape(-1, 9)
    m.close("dipole_tensor", outer(tg), outer(t), ttol, **ctx)
    m.close("strength_formula", fg, 2 / 3 * wg * np.sum(tg**2, axis=1), 1e-8, **ctx)
    f = 2 / 3 * w * np.sum(t**2, axis=1)
    m.close("strength_group", [sum(fg[k] for k in g) for g in gr], [sum(f[k] for k in g) for g in gr], ttol, **ctx)
    if np.max(f) > 1e-2:
        m._ev("bright")
    rows = [re.split(r"\s*\|\s*", l.strip()) for l in tab.strip().splitlines()[1:]]
    m.true("table", len(rows) == len(w) and all(int(r[0]) == i + 1 and abs(float(r[1]) - wg[i]) < 1e-6 and abs(float(r[2]) - wg[i] * 27.211386) < 1e-4 * max(1, wg[i]) and abs(float(r[3]) - fg[i]) < 1e-6 for i, r in enumerate(rows)), table=tab[:500], **ctx)
    if not active or nq == 0:
        with hist.quiet():
            sv = LR[form](d["wf"], excitations=exc)
            sv.calc_excitation_energies()
        m.close("matches_statevector_class", wg, np.array(sv.excitation_energies), 1e-5 * scale, **ctx)
    if rng.random() < 0.3:
        with hist.quiet():
            o.get_operator_info()
            o.get_excited_state_contributions()
        m._ev("operators_only")
