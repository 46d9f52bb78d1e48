"""P18 linear-response spectra: eigenproblem, normalisation, transition dipoles, oscillator strengths, exact limits, invariances."""
import importlib
import re

import numpy as np

from lib import hist, lr, lrcases
from lib import oracle as O

RULE = ("the spectrum of every formulation on random stationary wave functions against an independent solution (Cholesky-reduced) of the response problem defined by double commutators on full-space vectors; transition-dipole tensors "
        "and oscillator strengths summed over (near-)degenerate groups; exact spectra for complete manifolds; rotated and translated molecules; unstable stationary points; a case is one (wave function, formulation, manifold)")
ASSUMPTIONS = ["PySCF integrals", "wave functions stationary to 1e-6", "degenerate states are compared by the summed strength of the group (their individual vectors are not unique)", "formulations with a metric that is singular to 1e-3 are not compared"]
REQUIRED = {"energies": 60, "ascending": 60, "solves": 60, "normalised": 60, "dipole_tensor": 60, "strength_formula": 60, "strength_group": 60, "table": 60, "table_before": 8, "exact_energy": 12, "exact_strength": 12, "negative_hessian": 8,
            "rotated": 10, "bright": 60, "input_untouched": 60, "normed_parts": 60}

WFS = [("UCC", "SD"), ("UPS", "fuccsd"), ("UPS", "tups", {"n_layers": 2})]
BASE = [("H2", (2, 2)), ("H2", (2, 3)), ("HeH+", (2, 2)), ("HeH+", (2, 3)), ("H4", (2, 2)), ("H4", (2, 3)), ("H4", (4, 3)), ("LiH", (2, 2)), ("H3+", (2, 2)), ("H3-", (2, 2))]
EXACT = [("H3+", (2, 3), "UCC", "SD"), ("H2b", (2, 2), "UPS", "fuccsd"), ("H3-", (4, 3), "UCC", "SD"), ("H3+", (2, 3), "UPS", "fuccsd")]


def load():
    global UPS, UCC, LR
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS as UPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC as UCC
    LR = {f: importlib.import_module(f"slowquant.unitary_coupled_cluster.linear_response.{f}").LinearResponse for f in lr.FORMS}


def warm():
    pass


def scenarios(tier, seed):
    out = []
    for r in range(2 if tier == "quick" else 6):
        for i, (mn, cas) in enumerate(BASE):
            w = WFS[(i + r + seed) % 3]
            if w[1] == "tups" and cas == (4, 3):
                w = WFS[1]
            out.append({"id": f"{mn}-{cas}-{w[0]}{w[1]}-{r}", "kind": "spec", "mol": mn, "cas": list(cas), "wf": list(w), "exc": ["SD"] if (i + r) % 4 else ["SD", "S"], "rotate": (i + r) % 3 == 0 and mn != "LiH"})
        for i, (mn, cas, a, b) in enumerate(EXACT):
            out.append({"id": f"exact-{mn}-{cas}-{a}{b}-{r}", "kind": "exact", "mol": mn, "cas": list(cas), "wf": [a, b], "exc": ["SD"], "rotate": True})
        for i in range(2):
            out.append({"id": f"unstable-{i}-{r}", "kind": "unstable", "mol": ["H3+", "H3-"][i], "cas": [[2, 3], [4, 3]][i], "wf": list(WFS[i]), "exc": ["SD"]})
    if tier != "quick":
        for r in range(3):
            out.append({"id": f"H4-44-{r}", "kind": "exact", "mol": "H4", "cas": [4, 4], "wf": ["UCC", "SDTQ"], "exc": ["SDTQ"], "rotate": True})
    return out


def spectrum_of(LRc, wf, exc):
    with hist.quiet():
        o = LRc(wf, excitations=exc)
        before = (np.array(o.A), np.array(o.B), np.array(o.Sigma), np.array(o.Delta))
        o.calc_excitation_energies()
    return o, before


def bytensor(t, gr):
    return np.array([sum(np.outer(t[k], t[k]) for k in g) for g in gr]).reshape(-1, 9)


def run(s, m, rng):
    d = lrcases.make(rng, s, UPS, UCC, root=1 if s["kind"] == "unstable" else 0)
    wf, sp = d["wf"], d["space"]
    mus = [sp.sec.one_body(d["C"].T @ x @ d["C"]) for x in d["mol"].dip]
    for exc in s["exc"]:
        for form in lr.FORMS:
            ctx = {"form": form, "exc": exc}
            qs, Gs = lr.operators(sp, form, exc, d["U"], d["state"])
            Rs = [r for _, r in qs + Gs]
            A, B, S, D = lr.matrices(Rs, d["H"], d["state"])
            E2 = np.block([[A, B], [B, A]])
            emin = np.linalg.eigvalsh((E2 + E2.T) / 2)[0]
            if s["kind"] == "unstable":
                if emin < -1e-4:
                    m.case({"id": s["id"], **ctx, "geometry": d["mol"].text})
                    with hist.quiet():
                        o = LR[form](wf, excitations=exc)
                        m.raises("negative_hessian", ValueError, o.calc_excitation_energies, emin=float(emin), **ctx)
                continue
            S2 = np.block([[S, D], [-D, -S]])
            smin = np.min(np.abs(np.linalg.eigvals(S2)))
            if emin < 1e-3 or smin < 1e-3:
                m._ev("skipped_" + ("metric" if smin < 1e-3 else "hessian"))
                continue
            m.case({"id": s["id"], **ctx, "geometry": d["mol"].text, "thetas": d["thetas"]})
            w, v = lr.spectrum(A, B, S, D)
            t = lr.moments(Rs, v, mus, d["state"])
            o, before = spectrum_of(LR[form], wf, exc)
            with hist.quiet():
                m.raises("table_before", ValueError, o.get_formatted_oscillator_strength, **ctx)
                tg = np.array(o.get_transition_dipole())
                fg = np.array(o.get_oscillator_strength())
                tab = o.get_formatted_oscillator_strength()
            wg = np.array(o.excitation_energies)
            scale = 1 / min(1.0, smin)
            tol = 3e-6 * scale
            if not m.close("energies", wg, w, tol, 1e-6 * scale, **ctx):
                continue
            m.true("ascending", np.all(np.diff(wg) >= 0) and np.all(wg > 0), **ctx)
            # the reported vectors solve the reported problem and are normalised
            x = np.array(o.normed_response_vectors)
            E2c = np.block([[before[0], before[1]], [before[1], before[0]]])
            S2c = np.block([[before[2], before[3]], [-before[3], -before[2]]])
            m.close("solves", E2c @ x, S2c @ x * wg, 1e-5 * scale * max(1.0, wg[-1]), **ctx)
            gr = lr.groups(w, 1e-3)
            nrm = np.einsum("ik,ij,jk->k", x, S2c, x)
            m.close("normalised", nrm, np.ones(len(w)), 1e-6, **ctx)
            nq, n = len(o.q_ops), len(A)
            parts = np.concatenate([np.array(o.Z_q_normed), np.array(o.Z_G_normed), np.array(o.Y_q_normed), np.array(o.Y_G_normed)])
            m.close("normed_parts", parts, x, 1e-12, **ctx)
            ttol = 3e-5 * scale
            # vectors inside a degenerate set are not unique (nor orthogonal in general): tensors of isolated states only
            iso = [g for g in gr if len(g) == 1]
            m.close("dipole_tensor", bytensor(tg, iso), bytensor(t, iso), ttol, **ctx)
            m.close("strength_formula", fg, 2 / 3 * wg * np.sum(tg**2, axis=1), 1e-10, **ctx)
            f = 2 / 3 * w * np.sum(t**2, axis=1)
            m.close("strength_group", [sum(fg[k] for k in g) for g in gr], [sum(f[k] for k in g) for g in gr], ttol, **ctx)
            if np.max(f) > 1e-2:
                m._ev("bright")
            rows = [re.split(r"\s*\|\s*", l.strip()) for l in tab.strip().splitlines()[1:]]
            ok = len(rows) == len(w) and all(int(r[0]) == i + 1 and abs(float(r[1]) - wg[i]) < 1e-6 and abs(float(r[2]) - wg[i] * 27.211386) < 1e-4 * max(1, wg[i]) and abs(float(r[3]) - fg[i]) < 1e-6 for i, r in enumerate(rows))
            m.true("table", ok, table=tab[:600], **ctx)
            m.true("input_untouched", all(np.array_equal(a, b) for a, b in zip(before, (o.A, o.B, o.Sigma, o.Delta))) and list(wf.thetas) == d["thetas"] and np.array_equal(wf.c_mo, d["C"]), **ctx)
            # a unitary that does not conserve the total spin takes the spin-adapted excitations out of the singlet space
            if s["kind"] == "exact" and (s["wf"][0] == "UCC" or form in ("naive", "projected", "allprojected")):
                we, te = exact(d, mus)
                if "T" in exc.upper():  # spin-orbital triples and quadruples bring other multiplicities along
                    m.true("exact_contained", all(np.min(np.abs(wg - e)) < 1e-4 for e in we), got=wg, want=we, **ctx)
                    continue
                ge = lr.groups(we, 1e-3)
                if not m.close("exact_energy", wg, we, 1e-5, **ctx):
                    continue
                m.close("exact_strength", [sum(fg[k] for k in g) for g in ge], [sum(2 / 3 * we[k] * te[k] @ te[k] for k in g) for g in ge], 1e-4, **ctx)
            if s.get("rotate") and form in (lr.FORMS[int(rng.integers(8))], lr.FORMS[int(rng.integers(8))], "naive"):
                rotated(s, d, m, rng, form, exc, wg, fg, tg, gr, ctx, ttol, tol)


def exact(d, mus):
    """Singlet excitation energies and transition dipoles of the complete space."""
    sec = d["space"].sec
    H, S2 = d["H"].toarray(), sec.S2().toarray()
    w, v = np.linalg.eigh(H + 50.0 * S2)
    k = [i for i in range(len(w)) if abs(v[:, i] @ S2 @ v[:, i]) < 1e-6]
    e = np.array([v[:, i] @ H @ v[:, i] for i in k])
    t = np.array([[v[:, k[0]] @ (mu @ v[:, i]) for mu in mus] for i in k[1:]])
    return e[1:] - e[0], t


def rotated(s, d, m, rng, form, exc, wg, fg, tg, gr, ctx, ttol, tol):
    """The same hydrogen cluster (s functions only) rotated and translated: same coefficients, spectrum and strengths."""
    from lib import mols
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(Q) < 0:
        Q[:, 0] *= -1
    sh = rng.uniform(-3, 3, 3)
    M = d["mol"]
    new = mols.Mol([(a, tuple(float(v) for v in Q @ np.array(x) + sh)) for a, x in M.atoms], M.basis, M.charge)
    if np.max(np.abs(new.g - M.g)) > 1e-7:
        return
    with hist.quiet():
        if s["wf"][0] == "UCC":
            wf = UCC(tuple(s["cas"]), d["C"].copy(), new.fresh_mole(), s["wf"][1])
        else:
            wf = UPS(tuple(s["cas"]), d["C"].copy(), new.fresh_mole(), s["wf"][1], ansatz_options=dict(s["wf"][2]) if len(s["wf"]) > 2 else {})
        wf.thetas = d["thetas"]
    o, _ = spectrum_of(LR[form], wf, exc)
    with hist.quiet():
        f = np.array(o.get_oscillator_strength())
        t = np.array(o.get_transition_dipole())
    if m.close("rotated", np.array(o.excitation_energies), wg, 10 * tol, 1e-5, **ctx):
        m.close("rotated_strength", [sum(f[k] for k in g) for g in gr], [sum(fg[k] for k in g) for g in gr], 10 * ttol, **ctx)
        iso = [g for g in gr if len(g) == 1]
        a = bytensor(t, iso)
        b = np.array([(Q @ x.reshape(3, 3) @ Q.T).ravel() for x in bytensor(tg, iso)]).reshape(-1, 9)
        m.close("rotated_tensor", a, b, 10 * ttol, **ctx)
