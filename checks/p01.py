"""P01 atomic-orbital integrals against PySCF Cartesian integrals renormalised function by function."""
import numpy as np

from lib import basis as B
from lib import mols
from lib import oracle as O

RULE = ("random molecules over all shipped basis sets (single atoms to five atoms, compact, collinear, stretched and very distant) and random shells of angular momentum 0-4 with exponents "
        "0.03-3000 and 1-4 primitives placed on random atoms; every overlap, kinetic, nuclear-attraction, multipole (orders 0-3 around the reported origin) and electron-repulsion "
        "integral compared with PySCF, screening at the default, off and varied, stored or recomputed; a case is one molecule + basis, non-trivial when it has two centres or l > 0")
ASSUMPTIONS = ["PySCF's libcint integrals", "the multipole origin is the centre of mass the molecule reports; elements without a standard atomic weight are left out"]
REQUIRED = {"overlap": 60, "kinetic": 60, "nuclear": 60, "eri": 60, "multipole": 200, "eri_unscreened": 30, "eri_recomputed": 20, "screened_small": 10, "positive_definite": 60,
            "eri_symmetry": 60, "translation": 10, "mo_transform": 20, "high_l": 10, "stored_values_kept": 20}

NO_MASS = ("tc", "pm", "po", "at", "rn", "fr", "ra", "ac")  # no standard atomic weight: no centre of mass


def load():
    global SlowQuant, Shell, Integral, t1, t2
    from slowquant.molecularintegrals.integralclass import _Integral
    from slowquant.molecularintegrals.integralfunctions import one_electron_integral_transform, two_electron_integral_transform
    from slowquant.molecule.moleculeclass import Shell as S_
    from slowquant.SlowQuant import SlowQuant as SQ
    SlowQuant, Shell, Integral, t1, t2 = SQ, S_, _Integral, one_electron_integral_transform, two_electron_integral_transform


def scenarios(tier, seed):
    out = []
    k = 1 if tier == "quick" else 10
    for bs in B.names():
        for i in range(3 * k):
            out.append({"id": f"set-{bs}-{i}", "kind": "set", "basis": bs, "tier": tier})
    for i in range(72 * k):
        out.append({"id": f"shells-{i}", "kind": "shells", "far": i % 4 == 3, "high": i % 3 == 0})
    for i in range(8 * k):
        out.append({"id": f"screen-{i}", "kind": "screen"})
    return out


def geometry(rng, n, unit_scale=1.5):
    style = int(rng.integers(4))
    if style == 0:
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        if rng.random() < 0.5:
            d = np.eye(3)[int(rng.integers(3))]
        return [tuple(float(v) for v in d * unit_scale * i * 1.1) for i in range(n)]
    if style == 1:
        pts = mols.spread_points(rng, n, 0.6)
        return [(float(a) * unit_scale, float(b) * unit_scale, 0.0) for a, b, _ in pts] if n < 3 else [tuple(float(v) * unit_scale for v in p) for p in pts]
    s = unit_scale * (4.0 if style == 3 else 1.0)
    return [tuple(float(v) * s for v in p) for p in mols.spread_points(rng, n, 0.6)]


def compare(m, I, tw, com, rng, ctx, etol=5e-11):
    scale = float(np.max(np.abs(tw.V))) + 1
    m.close("overlap", I.overlap_matrix, tw.S, 1e-11, **ctx)
    m.close("kinetic", I.kinetic_energy_matrix, tw.T, 1e-11 * (1 + float(np.max(np.abs(tw.T)))), 1e-10, **ctx)
    m.close("nuclear", I.nuclear_attraction_matrix, tw.V, 1e-10 * scale, 1e-10, **ctx)
    S = np.array(I.overlap_matrix)
    T = np.array(I.kinetic_energy_matrix)
    if np.linalg.cond(tw.S) < 1e8:
        m.true("positive_definite", np.linalg.eigvalsh(S)[0] > 0 and np.linalg.eigvalsh(T)[0] > 0, **ctx)
    orders = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
    more = [(2, 0, 0), (1, 1, 0), (1, 0, 1), (0, 2, 0), (0, 1, 1), (0, 0, 2), (3, 0, 0), (2, 1, 0), (1, 1, 1), (0, 1, 2), (0, 0, 3), (0, 3, 0), (1, 2, 0), (1, 0, 2), (2, 0, 1), (0, 2, 1)]
    orders += [more[int(i)] for i in rng.choice(len(more), 4, replace=False)]
    for o in orders:
        w = tw.multipole(o, com)
        m.close("multipole", I.get_multipole_matrix(np.array(o)), w, 1e-10 * (1 + np.max(np.abs(w))), 1e-10, order=o, **ctx)
    g = np.array(I.electron_repulsion_tensor)
    m.close("eri", g, tw.g, etol * (1 + float(np.max(np.abs(tw.g)))), 1e-10, **ctx)
    for p in ([1, 0, 2, 3], [0, 1, 3, 2], [2, 3, 0, 1]):
        m.close("eri_symmetry", g.transpose(p), g, 1e-12 * (1 + np.max(np.abs(g))), perm=p, **ctx)


def run(s, m, rng):
    if s["kind"] == "set":
        bs = s["basis"]
        tab = B.table(bs)
        fn = lambda e: sum((k[0] + 1) * (k[0] + 2) // 2 for k in tab[e])
        cost = lambda e: sum((k[0] + 1) * (k[0] + 2) // 2 * (len(k) - 1) for k in tab[e])
        light = [e for e in tab if fn(e) <= 45 and e not in NO_MASS]
        for _ in range(40):
            els = [str(rng.choice(light)) for _ in range(int(rng.integers(1, 6)))]
            if rng.random() < 0.5:
                els = ["h" if "h" in tab and rng.random() < 0.6 else e for e in els]
            if sum(fn(e) for e in els) <= 40 and sum(cost(e) for e in els) <= (70 if s["tier"] == "quick" else 120):
                break
        else:
            els = [min(light, key=cost)]
        at = [(e.capitalize(), p) for e, p in zip(els, geometry(rng, len(els)))]
        ctx = {"atoms": at, "basis": bs}
        m.case(ctx, len(at) > 1 or any(k[0] for k in tab[els[0]]))
        sq = SlowQuant()
        name = bs if rng.random() < 0.5 else bs.upper()
        if rng.random() < 0.5:
            sq.set_molecule(B.text(at), distance_unit="bohr", basis_set=name)
        else:
            sq.set_molecule(B.text(at), distance_unit="bohr")
            sq.set_basis_set(name)
        tw = B.Twin(at, [tab[e] for e in els])
        compare(m, sq.integral, tw, sq.molecule.center_of_mass, rng, ctx)
        I = sq.integral
        keep = {n: (getattr(I, n), np.array(getattr(I, n)).copy()) for n in ("overlap_matrix", "kinetic_energy_matrix", "nuclear_attraction_matrix", "electron_repulsion_tensor")}
        if tw.nbf <= 25:
            I.store_1e_int = I.store_2e_int = bool(rng.integers(2))
            I.force_recompute = True
            compare(m, I, tw, sq.molecule.center_of_mass, rng, {**ctx, "recompute": True})
            m._ev("eri_recomputed")
            I.store_1e_int = I.store_2e_int = True
            I.cauchy_schwarz_threshold = 0.0
            m.close("eri_unscreened", I.electron_repulsion_tensor, tw.g, 5e-11 * (1 + float(np.max(np.abs(tw.g)))), 1e-10, **ctx)
        for n, (v, c) in keep.items():
            m.close("stored_values_kept", v, c, 0.0, what=n, **ctx)
        # shifted molecule: same overlap, kinetic and repulsion
        d = rng.normal(size=3) * 3
        at2 = [(e, tuple(float(a + b) for a, b in zip(p, d))) for e, p in at]
        sq2 = SlowQuant()
        sq2.set_molecule(B.text(at2), distance_unit="bohr", basis_set=bs)
        m.close("translation", sq2.integral.overlap_matrix, tw.S, 1e-11, **ctx)
        m.close("translation", sq2.integral.nuclear_attraction_matrix, tw.V, 1e-10 * (1 + np.max(np.abs(tw.V))), **ctx)
        C = rng.normal(size=(tw.nbf, int(rng.integers(1, min(tw.nbf, 6) + 1))))
        m.close("mo_transform", t1(C, tw.V), C.T @ tw.V @ C, 1e-9, 1e-10, **ctx)
        if tw.nbf <= 20:
            m.close("mo_transform", t2(C, tw.g), O.transform(C, tw.V, tw.g)[1], 1e-9 * (1 + np.max(np.abs(tw.g))), 1e-9, **ctx)
        return
    if s["kind"] == "screen":
        # pairs of far-apart fragments: screening on, off, and at a coarse threshold
        n = int(rng.integers(2, 5))
        pts = [tuple(float(v) for v in rng.normal(size=3) + np.array([0, 0, i * rng.uniform(3.0, 14.0)])) for i in range(n)]
        bs = str(rng.choice(["sto-3g", "6-31g", "6-31g**", "cc-pvdz", "aug-cc-pvdz", "6-31++g"]))
        els = [str(rng.choice(["H", "He", "Li"] if n < 3 and bs != "aug-cc-pvdz" else ["H", "He"])) for _ in range(n)]
        if n == 4 and bs == "aug-cc-pvdz":
            bs = "6-31g**"
        at = list(zip(els, pts))
        if any(e.lower() not in B.table(bs) for e in els):
            at = [("H", p) for _, p in at]
        sh = [B.table(bs)[e.lower()] for e, _ in at]
        ctx = {"atoms": at, "basis": bs}
        m.case(ctx)
        sq = SlowQuant()
        sq.set_molecule(B.text(at), distance_unit="bohr", basis_set=bs)
        tw = B.Twin(at, sh)
        compare(m, sq.integral, tw, sq.molecule.center_of_mass, rng, ctx)
        # a fresh object whose stored tensor is first computed with a coarse threshold: recomputation must forget it
        sq = SlowQuant()
        sq.set_molecule(B.text(at), distance_unit="bohr", basis_set=bs)
        I = sq.integral
        I.force_recompute = True
        for thr in (1e-3, 0.0, 1e-12, 1e-9, 1e-6, 1e-4):
            I.cauchy_schwarz_threshold = thr
            g = np.array(I.electron_repulsion_tensor)
            # screening may only zero integrals that are below the threshold
            d = np.abs(g - tw.g)
            tol = 5e-11 * (1 + float(np.max(np.abs(tw.g))))
            ok = (d <= tol) | ((g == 0) & (np.abs(tw.g) <= thr + tol))
            m.true("screened_small" if thr else "eri_unscreened", np.all(ok), threshold=thr, worst=float(np.max(np.where(ok, 0, d))), **ctx)
        return
    # random shells: every angular-momentum combination and exponent regime
    n = int(rng.integers(1, 5))
    pts = geometry(rng, n, 12.0 if s["far"] else 1.5)
    els = [str(rng.choice(["H", "He", "Be", "O"])) for _ in range(n)]
    at = list(zip(els, pts))
    lmax = 4 if s["high"] else 2
    nsh = 3 if s["high"] else 6
    sh = [[] for _ in range(n)]
    for k in range(nsh):
        l = int(rng.integers(0, lmax + 1)) if not (s["high"] and k < 2) else int(rng.integers(2, lmax + 1))
        npr = int(rng.integers(1, 2 if l > 3 else 3 if l > 1 else 5))
        lo, hi = [(0.03, 3000), (0.03, 3000), (0.08, 60), (0.2, 8), (0.4, 4)][l]  # exponent ranges met in basis sets; extreme ratios at high l only probe cancellation
        base = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
        ex = sorted([base * float(rng.uniform(2.2, 4.0)) ** j for j in range(npr)], reverse=True)
        sh[int(rng.integers(n))].append([l] + [[e, float(rng.uniform(0.1, 1.0)) * (1 if rng.random() < 0.8 else -1)] for e in ex])
    at = [a for a, q in zip(at, sh) if q] + [a for a, q in zip(at, sh) if not q]
    sh = [q for q in sh if q] + [q for q in sh if not q]
    ctx = {"atoms": at, "shells": sh}
    m.case(ctx)
    if any(k[0] > 2 for q in sh for k in q):
        m._ev("high_l")
    sq = SlowQuant()
    sq.set_molecule(B.text(at), distance_unit="bohr")
    mol = sq.molecule
    mol.shells, nb = [], 0
    for a, q in zip(mol.atoms, sh):
        for k in q:
            am = np.array(B.cart(k[0]))
            mol.shells.append(Shell(a.coordinate, np.array([e for e, _ in k[1:]]), np.array([c for _, c in k[1:]]), am, nb, a))
            nb += len(am)
    mol.number_bf = nb
    filler = [q if q else [[0, [1.0, 1.0]]] for q in sh]  # PySCF wants a function on every atom
    tw = B.Twin(at, filler)
    if tw.nbf != nb:
        keepidx = np.arange(nb)
        tw.perm = tw.perm[keepidx]
    I = Integral(mol)
    compare(m, I, tw, mol.center_of_mass, rng, ctx, 1e-8 if s["high"] else 2e-10)
