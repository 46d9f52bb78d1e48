"""P09 ansatz unitaries vs. dense matrix exponentials of independently built generators."""
import numpy as np
import scipy.linalg

from lib import gens, mols
from lib import oracle as O

RULE = ("random products of 1..8 excitations of every type (single..sextuple, spin-adapted singles and the five spin-adapted double cases) with random "
        "indices on plain and extended determinant spaces, parameters in {0, tiny, generic, >2pi, multiples of pi/2}, random states and batches; plus every "
        "named ansatz through the wave function classes; a case is one (space, layout, parameters), non-trivial when the state changes")
ASSUMPTIONS = ["reference exponentials by scipy.linalg.expm", "spin-adapted doubles use disjoint annihilated/created orbital pairs"]
REQUIRED = {"product_of_exponentials": 150, "inverse_restores": 150, "batched": 150, "single_factor": 150, "derivative_action": 150, "norm": 100,
            "ucc_exponential": 30, "ucc_quintuple": 2, "wavefunction_state": 20, "spin_conserved": 20, "extended_space": 30, "input_unchanged": 150}


def load():
    global osa, cs, util, UPS, UCC, SAUPS
    from slowquant.unitary_coupled_cluster import ci_spaces as cs_
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa_
    from slowquant.unitary_coupled_cluster import util as util_
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS
    osa, cs, util, UPS, UCC = osa_, cs_, util_, WaveFunctionUPS, WaveFunctionUCC


def warm():
    ci = cs.get_indexing(0, 2, 0, 1, 1)
    st = np.ones(4) / 2
    L = mk_layout([("single", (0, 2))])
    osa.construct_ups_state(st, ci, [0.3], L)
    osa.construct_ups_state_SA(np.array([st, st]), ci, [0.3], L)
    osa.build_operator_matrix(osa.G1(0, 2, True), ci)


LOW = ["single", "double", "sa_single", "sa_double_1", "sa_double_2", "sa_double_3", "sa_double_4", "sa_double_5"]
HIGH = ["triple", "quadruple", "quintuple", "sextuple"]


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(8 * k):
        out.append({"id": f"rand-{i}", "kind": "rand", "n": 16})
    for t in LOW + HIGH:
        for i in range(k):
            out.append({"id": f"type-{t}-{i}", "kind": "type", "type": t, "n": 14})
    for i in range(4 * k):
        out.append({"id": f"ext-{i}", "kind": "ext", "n": 10})
    for i in range(2 * k):
        out.append({"id": f"ucc-{i}", "kind": "ucc", "n": 20})
    for i in range(k):
        for j in range(len(WF)):
            out.append({"id": f"wf-{j}-{i}", "kind": "wf", "j": j, "r": i})
        for ex in ("S", "D", "SD", "SDT", "SDTQ"):
            out.append({"id": f"wfucc-{ex}-{i}", "kind": "wfucc", "ex": ex})
    return out


WF = [("tups", {"n_layers": 2}, True), ("tups", {"n_layers": 1, "skip_last_singles": True}, True), ("qnp", {"n_layers": 2}, True),
      ("fuccsd", {}, False), ("ksafupccgsd", {"n_layers": 2}, True), ("fucc", {"n_layers": 1, "SAS": True, "pD": True}, True),
      ("fucc", {"n_layers": 1, "S": True, "D": True, "T": True, "Q": True}, False), ("safuccsd", {}, True), ("sdsfuccsd", {}, False),
      ("ksasdsfupccgsd", {"n_layers": 1}, True), ("fucc", {"n_layers": 2, "GS": True, "GpD": True}, False), ("fuccpd", {}, True),
      ("tups", {"n_layers": 2, "do_pp": True}, True)]


def mk_layout(entries, cls=None):
    L = (cls or util.UpsStructure)()
    L.excitation_operator_type = [t for t, _ in entries]
    L.excitation_indices = [tuple(i) for _, i in entries]
    L.n_params = len(entries)
    return L


def rand_theta(rng):
    r = rng.integers(0, 8)
    if r == 0:
        return 0.0
    if r == 1:
        return float(rng.choice([np.pi, -np.pi, np.pi / 2, 2 * np.pi, -3 * np.pi / 2, np.pi / 4]))
    if r == 2:
        return float(rng.normal() * 1e-6)
    if r == 3:
        return float(rng.uniform(-15, 15))
    return float(rng.uniform(-np.pi, np.pi))


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def check_layout(m, rng, ci, sec, entries, off, cfg):
    L = mk_layout(entries)
    th = [rand_theta(rng) for _ in entries]
    if rng.random() < 0.3:
        th = np.array(th)
    Gs = [gens.generator(sec, t, i, off) for t, i in entries]
    Us = [scipy.linalg.expm(x * G) for x, G in zip(th, Gs)]
    st = rng.normal(size=sec.dim)
    st /= np.linalg.norm(st)
    if off and rng.random() < 0.5:
        st[len(st) // 2:] = 0
    want = st
    for U in Us:
        want = U @ want
    m.case({"cfg": cfg, "layout": entries, "thetas": list(th)}, bool(np.abs(want - st).max() > 1e-8))
    tol = 1e-8
    s0 = st.copy()
    thc = np.array(th).copy()
    got = osa.construct_ups_state(s0, ci, th, L)
    m.close("product_of_exponentials", got, want, tol, cfg=cfg, layout=entries, thetas=list(th))
    if off:
        m.close("extended_space", got, want, tol, cfg=cfg, layout=entries)
    m.close("norm", float(np.linalg.norm(got)), float(np.linalg.norm(st)), 1e-9)
    back = osa.construct_ups_state(got, ci, th, L, dagger=True)
    m.close("inverse_restores", back, st, tol, cfg=cfg, layout=entries, thetas=list(th))
    wd = st
    for U in Us[::-1]:
        wd = U.T @ wd
    m.close("inverse_restores", osa.construct_ups_state(s0, ci, th, L, dagger=True), wd, tol, cfg=cfg, layout=entries)
    m.close("operator_list_unitary", osa.propagate_state(["U"], s0, ci, th, L), want, tol)
    m.close("operator_list_unitary", osa.propagate_state(["Ud", "U"], s0, ci, th, L), st, tol)
    m.close("operator_list_unitary", osa.propagate_state(["Ud"], s0, ci, th, L), wd, tol)
    # batches
    B = rng.normal(size=(int(rng.integers(1, 4)), sec.dim))
    B0 = B.copy()
    wB, wBd = B, B
    for U in Us:
        wB = wB @ U.T
    for U in Us[::-1]:
        wBd = wBd @ U
    gB = osa.construct_ups_state_SA(B0, ci, th, L)
    m.close("batched", gB, wB, tol * 5, cfg=cfg, layout=entries, thetas=list(th))
    m.close("batched", osa.construct_ups_state_SA(B0, ci, th, L, dagger=True), wBd, tol * 5, cfg=cfg, layout=entries, direction="inverse")
    m.close("operator_list_unitary", osa.propagate_state_SA(["Ud", "U"], B0, ci, th, L), B, tol * 5)
    # factor by factor
    cur = st.copy()
    for k in range(len(entries)):
        nxt = osa.propagate_unitary(cur, k, ci, th, L)
        m.close("single_factor", nxt, Us[k] @ cur, tol, cfg=cfg, entry=entries[k], theta=float(th[k]))
        m.close("single_factor", osa.propagate_unitary_SA(B0, k, ci, th, L), B @ Us[k].T, tol * 5, cfg=cfg, entry=entries[k], theta=float(th[k]), batch=True)
        m.close("derivative_action", osa.get_grad_action(cur, k, ci, L), Gs[k] @ cur, tol, cfg=cfg, entry=entries[k])
        m.close("derivative_action", osa.get_grad_action_SA(B0, k, ci, L), B @ Gs[k].T, tol * 5, cfg=cfg, entry=entries[k], batch=True)
        cur = nxt
    m.true("input_unchanged", np.array_equal(s0, st) and np.array_equal(B0, B) and np.array_equal(thc, np.array(th)), cfg=cfg, layout=entries)
    m.close("zero_parameters", osa.construct_ups_state(s0, ci, [0.0] * len(entries), L), st, 1e-12)


def space(rng, min_orb=2, dim_max=150, types=None):
    while True:
        a = int(rng.integers(min_orb, 7))
        na, nb = (int(x) for x in rng.integers(0, a + 1, 2))
        d = len(O.sector(a, na, nb))
        if 1 < d <= dim_max:
            return a, na, nb


def run_rand(s, m, rng):
    for it in range(s["n"]):
        a, na, nb = space(rng, 2, 110)
        ci = cs.get_indexing(int(rng.integers(0, 2)), a, 1, na, nb)
        sec = O.Sector(a, na, nb, ci.idx2det)
        entries = []
        while len(entries) < int(rng.integers(1, 7)):
            e = gens.random_excitation(rng, a, LOW + (HIGH[:2] if it % 2 else []))
            if e:
                entries.append(e)
        check_layout(m, rng, ci, sec, entries, 0, [a, na, nb])


def run_type(s, m, rng):
    t = s["type"]
    spaces = {"quintuple": [(5, 3, 2), (5, 2, 3), (6, 3, 2)], "sextuple": [(6, 3, 3)], "quadruple": [(4, 2, 2), (5, 2, 2), (5, 3, 2)]}.get(
        t, [(4, 2, 2), (4, 1, 2), (4, 3, 2), (5, 2, 2), (4, 1, 1), (4, 3, 3), (5, 2, 1)])
    for it in range(s["n"]):
        a, na, nb = spaces[it % len(spaces)]
        if t in ("sextuple", "quintuple") and it >= 6:
            break
        ci = cs.get_indexing(0, a, 0, na, nb)
        sec = O.Sector(a, na, nb, ci.idx2det)
        entries = []
        for _ in range(2 if t in HIGH else 3):
            for _try in range(300):
                e = gens.random_excitation(rng, a, [t])
                if e is not None and (t not in gens.RANK or np.any(gens.generator(sec, *e))):
                    entries.append(e)
                    break
        if not entries:
            continue
        check_layout(m, rng, ci, sec, entries, 0, [a, na, nb])


def run_ext(s, m, rng):
    for it in range(s["n"]):
        while True:
            ni, nv = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            a = int(rng.integers(2, 4))
            na, nb = (int(x) for x in rng.integers(0, a + 1, 2))
            if ni > 0 and ni + a + nv <= 5:
                ci = cs.get_indexing_extended(ni, a, nv, na, nb, int(rng.integers(1, 3)))
                if 1 < len(ci.idx2det) <= 200:
                    break
        sec = O.Sector(ni + a + nv, na + ni, nb + ni, ci.idx2det)
        entries = []
        while len(entries) < int(rng.integers(1, 5)):
            e = gens.random_excitation(rng, a, LOW)
            if e:
                entries.append(e)
        check_layout(m, rng, ci, sec, entries, ni, [ni, a, nv, na, nb])


def run_ucc(s, m, rng):
    for it in range(s["n"] + 3):
        a, na, nb = space(rng, 2, 110)
        deep = it >= s["n"]
        if deep:  # quintuple and sextuple excitations in a spread-parameter exponential
            a, na, nb = ((5, 3, 2), (5, 2, 3), (6, 3, 3))[it - s["n"]]
        off = 0
        ci = cs.get_indexing(0, a, 0, na, nb)
        sec = O.Sector(a, na, nb, ci.idx2det)
        if it % 4 == 3 and not deep:
            ci = cs.get_indexing_extended(1, 2, 1, 1, 1, 2)
            sec = O.Sector(4, 2, 2, ci.idx2det)
            a, off = 2, 1
        entries = []
        while len(entries) < int(rng.integers(1, 7)):
            e = gens.random_excitation(rng, a, LOW + HIGH[:2])
            if e:
                entries.append(e)
        for t in (HIGH[2:3] if a == 5 else HIGH[2:]) if deep else ():
            for _ in range(400):
                e = gens.random_excitation(rng, a, [t])
                if e is not None and np.any(gens.generator(sec, *e)):
                    entries.append(e)
                    m._ev("ucc_" + t)
                    break
        L = mk_layout(entries, util.UccStructure)
        th = [rand_theta(rng) * 0.5 for _ in entries]
        G = sum(x * gens.generator(sec, t, i, off, ups=False) for x, (t, i) in zip(th, entries))
        U = scipy.linalg.expm(G)
        st = rng.normal(size=sec.dim)
        st /= np.linalg.norm(st)
        s0 = st.copy()
        m.case({"ucc": [a, na, nb, off], "layout": entries, "thetas": th}, bool(np.abs(U @ st - st).max() > 1e-8))
        got = osa.construct_ucc_state(s0, ci, th, L)
        m.close("ucc_exponential", got, U @ st, 1e-8, layout=entries, thetas=th)
        m.close("ucc_exponential", osa.construct_ucc_state(s0, ci, th, L, dagger=True), U.T @ st, 1e-8, layout=entries, direction="inverse")
        m.close("inverse_restores", osa.construct_ucc_state(got, ci, th, L, dagger=True), st, 1e-8)
        m.close("operator_list_unitary", osa.propagate_state(["Ud", "U"], s0, ci, th, L), st, 1e-8)
        m.true("input_unchanged", np.array_equal(s0, st))


def wf_common(m, rng, wf, want_fn, spin_adapted, label):
    sec = O.Sector(wf.num_active_orbs, wf.num_active_elec_alpha, wf.num_active_elec_beta, wf.ci_info.idx2det)
    S2 = sec.S2()
    n = len(wf.thetas)
    for it in range(3):
        th = [0.0] * n if it == 0 else [rand_theta(rng) for _ in range(n)]
        wf.thetas = th
        c = wf.ci_coeffs
        m.case({"wf": label, "it": it, "th": th[:4]}, it > 0)
        m.close("wavefunction_state", c, want_fn(sec, th, wf.csf_coeffs), 1e-7, wf=label, thetas=th)
        m.close("norm", float(np.linalg.norm(c)), 1.0, 1e-9, wf=label)
        if it == 0:
            m.close("zero_parameters", c, wf.csf_coeffs, 1e-12)
            m.true("reference_is_determinant", np.count_nonzero(wf.csf_coeffs) == 1 and abs(np.abs(wf.csf_coeffs).max() - 1) < 1e-14)
        if spin_adapted:
            m.close("spin_conserved", S2 @ c, np.zeros(sec.dim), 1e-8, wf=label, thetas=th)


def run_wf(s, m, rng):
    name, opts, sa = WF[s["j"]]
    for cas, nh in (((2, 2), 4), ((4, 4), 4), ((2, 3), 4)):
        if opts.get("Q") and cas[1] < 4 or (opts.get("do_pp") and cas[1] < 4):
            continue
        mol = mols.hydrogens(rng, nh)
        wf = UPS(cas, mols.random_mo(rng, mol), mol.mole, name, dict(opts))
        wf_common(m, rng, wf, lambda sec, th, ref: gens.ups_state(sec, wf.ups_layout, th, ref), sa, [name, opts, cas])


def run_wfucc(s, m, rng):
    for cas, nh in (((2, 2), 4), ((4, 4), 4)):
        mol = mols.hydrogens(rng, nh)
        if len(s["ex"]) > 2 and cas[1] < 4:
            continue
        wf = UCC(cas, mols.random_mo(rng, mol), mol.mole, s["ex"])

        def want(sec, th, ref):
            G = sum(x * gens.generator(sec, t, i, 0, ups=False) for x, t, i in
                    zip(th, wf.ucc_layout.excitation_operator_type, wf.ucc_layout.excitation_indices))
            return scipy.linalg.expm(G) @ ref

        wf_common(m, rng, wf, want, s["ex"] in ("S", "D", "SD"), ["ucc", s["ex"], cas])
