"""P24 integral sources: the same molecule through the package's own molecule object and through PySCF, from bare integrals to excitation energies."""
import copy
import importlib

import numpy as np

from checks import p19
from lib import basis as B
from lib import hist, lr, lrcases, mols, qmap
from lib import oracle as O

RULE = ("random molecules (H..Ne, charged, s/p/d basis sets) built twice, as SlowQuant and as PySCF objects over the same functions: adapter integrals in random read order, then wave functions of every class with the same physical orbitals driven through the same "
        "random updates (energies, integrals, energy gradients, state energies, transition properties), and response spectra of all formulations; compared with each other and with values from PySCF's integrals; a case is one molecule or one point of one pair")
ASSUMPTIONS = ["PySCF integrals", "dipole integrals may differ between the sources by the choice of origin (a multiple of the overlap matrix) and nothing else"]
REQUIRED = {"integrals": 60, "dipole": 45, "electrons": 15, "nuclear": 15, "same_energy": 60, "energy": 60, "same_gradient": 20, "same_state_energies": 8, "same_strengths": 8, "same_transition_property": 8, "response_energies": 16, "response_strengths": 16,
            "response_dipole": 16, "repeat": 40, "circuit": 3, "own_orbitals": 4, "charged": 4}
JOBS = 8
BASIS = ["sto-3g", "6-31g", "4-31g", "dz", "6-31g**", "cc-pvdz", "6-311g", "dzp", "6-31++g", "def2-svp"]


def load():
    global SlowQuant, Manager, UCC, UPS, SAUPS, LR, SAC
    p19.load()
    from slowquant.SlowQuant import SlowQuant
    from slowquant.unitary_coupled_cluster.integral_manager import IntegralManager as Manager
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS as SAUPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC as UCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS as UPS
    from slowquant.qiskit_interface.sa_circuit_wavefunction import WaveFunctionSACircuit as SAC
    LR = {f: importlib.import_module(f"slowquant.unitary_coupled_cluster.linear_response.{f}").LinearResponse for f in lr.FORMS}


def warm():
    pass


WFK = ["UCC", "UPS", "SAUPS", "WFC", "SAC"]


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for i in range(6 * k):
        out.append({"id": f"lr-{i}", "kind": "lr", "mol": ["H2", "HeH+", "H4", "LiH", "H3+", "H3-"][i % 6], "cas": [[2, 2], [2, 3], [2, 2], [2, 2], [2, 2], [2, 2]][i % 6], "wf": [["UCC", "SD"], ["UPS", "fuccsd"]][(i + seed) % 2]})
    for i in range(20 * k):
        out.append({"id": f"wf-{i}", "kind": "wf", "wf": (WFK + ["UCC", "UPS", "SAUPS"])[i % 8], "basis": ["sto-3g", "6-31g", "sto-3g", "sto-3g", "6-31g"][i % 5], "own": i % 4 == 1, "steps": 4 if tier == "quick" else 8})
    for i in range(24 * k):
        out.append({"id": f"int-{i}", "kind": "int", "basis": BASIS[i % len(BASIS)]})
    return out


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


class Pair:
    """One molecule, two objects, and the change of basis between their functions."""

    def __init__(self, atoms, basis, charge=0):
        tab = B.table(basis)
        self.atoms, self.basis, self.charge = atoms, basis, charge
        self.text = B.text(atoms)
        self.tw = B.Twin(atoms, [tab[s.lower()] for s, _ in atoms], charge)
        self.mole = self.tw.mole
        self.nelec, self.norb = self.mole.nelectron, self.tw.nbf
        self.S = self.mole.intor("int1e_ovlp_cart")
        self.h = self.mole.intor("int1e_kin_cart") + self.mole.intor("int1e_nuc_cart")
        self.g = self.mole.intor("int2e_cart")
        with self.mole.with_common_origin((0, 0, 0)):
            self.dip = self.mole.intor("int1e_r_cart")
        self.enuc = self.tw.enuc

    def own(self):
        sq = SlowQuant()
        sq.set_molecule(self.text, molecular_charge=self.charge, distance_unit="bohr", basis_set=self.basis)
        return sq

    def fresh_mole(self):
        return self.mole.copy()

    def down(self, m):
        """Matrix over PySCF's functions -> over the package's (same shell order as in the file, every function normalised)."""
        return self.tw._one(m)

    def to_own(self, C):
        return (C / self.tw.norm[:, None])[self.tw.perm]

    def to_pyscf(self, C):
        out = np.zeros_like(C)
        out[self.tw.perm] = C
        return out * self.tw.norm[:, None]

    @property
    def rhf_mo(self):
        from pyscf import scf
        mf = scf.RHF(self.mole)
        mf.verbose = 0
        mf.kernel()
        return mf.mo_coeff


def random_pair(rng, basis, maxbf, maxcost=60, even=True):
    tab = B.table(basis)
    els = [e for e in ("h", "h", "h", "he", "li", "be", "b", "c", "n", "o", "f") if e in tab]
    fn = lambda e: sum((k[0] + 1) * (k[0] + 2) // 2 for k in tab[e])
    cost = lambda e: sum((k[0] + 1) * (k[0] + 2) // 2 * (len(k) - 1) for k in tab[e])
    Z = {e: z + 1 for z, e in enumerate("h he li be b c n o f".split())}
    for _ in range(200):
        pick = [str(rng.choice(els)) for _ in range(int(rng.integers(2, 5)))]
        q = int(rng.integers(-1, 2))
        ne = sum(Z[e] for e in pick) - q
        if even and ne % 2:
            q += 1
            ne -= 1
        if ne >= 2 and ne // 2 < sum(fn(e) for e in pick) <= maxbf and sum(cost(e) for e in pick) <= maxcost:
            break
    else:
        pick, q = ["h", "h"], 0
    pts = mols.spread_points(rng, len(pick), 0.8)
    shift = rng.normal(size=3)
    return Pair([(e.capitalize(), tuple(float(v) * 1.8 + float(d) for v, d in zip(p, shift))) for e, p in zip(pick, pts)], basis, q)


def run_int(s, m, rng):
    p = random_pair(rng, s["basis"], 26, even=False)
    ctx = {"atoms": p.atoms, "basis": p.basis, "charge": p.charge}
    m.case(ctx)
    if p.charge:
        m._ev("charged")
    sq = p.own()
    a, b = Manager(sq), Manager(p.fresh_mole())
    m.true("electrons", a.num_elec == p.nelec and b.num_elec == p.nelec, got=[a.num_elec, b.num_elec], want=p.nelec, **ctx)
    m.close("nuclear", float(a.nuclear_nuclear_repulsion), p.enuc, 1e-9, 1e-9, **ctx)
    m.close("nuclear", float(b.nuclear_nuclear_repulsion), p.enuc, 1e-9, 1e-9, **ctx)
    raw = {"kinetic_energy": p.mole.intor("int1e_kin_cart"), "nuclear_electron_attraction": p.mole.intor("int1e_nuc_cart"), "h_ao": p.h}
    g = p.tw.g
    for what in [str(x) for x in rng.permutation(list(raw) + ["electron_repulsion", "electric_dipole"] + list(raw))]:
        if what in raw:
            sc = 1 + float(np.max(np.abs(raw[what])))
            m.close("integrals", np.array(getattr(a, what)), p.down(raw[what]), 1e-9 * sc, what=what, source="own", **ctx)
            m.close("integrals", np.array(getattr(b, what)), raw[what], 1e-9 * sc, what=what, source="pyscf", **ctx)
        elif what == "electron_repulsion":
            m.close("integrals", np.array(a.electron_electron_repulsion), g, 1e-9 * (1 + float(np.max(np.abs(g)))), what=what, source="own", **ctx)
            m.close("integrals", np.array(b.electron_electron_repulsion), p.g, 1e-9, what=what, source="pyscf", **ctx)
        else:
            da, db = a.electric_dipole, b.electric_dipole
            m.true("dipole", len(da) == 3 and len(db) == 3, **ctx)
            for k in range(3):
                for x, src in ((np.array(da[k]), "own"), (p.down(np.array(db[k])), "pyscf")):
                    w = p.down(p.dip[k])
                    S = p.tw.S
                    # equal up to the origin
                    c = float(np.sum((x - w) * S) / np.sum(S * S))
                    m.close("dipole", x - c * S, w, 1e-8 * (1 + float(np.max(np.abs(w)))), k=k, source=src, **ctx)
    for what in ("kinetic_energy", "h_ao", "electron_electron_repulsion", "nuclear_electron_attraction"):
        m.close("repeat", np.array(getattr(a, what)), np.array(getattr(a, what)), 0.0, what=what, **ctx)
        m.close("repeat", np.array(getattr(a, what)), np.array(getattr(Manager(sq), what)), 1e-12, what=what, why="second adapter of the same object", **ctx)


def objective(wf):
    """Energy and gradient functions handed to the optimiser (orbitals and parameters together)."""
    got = {}

    def probe(fun, x0, jac, method):
        x = got["x"] if "x" in got else x0
        got.setdefault("out", []).append((len(x0), float(np.mean(fun(x.copy()))), np.array(jac(x.copy()), dtype=float)))
        return x0
    return got, probe


def run_wf(s, m, rng):
    kind = s["wf"]
    circuit = kind in ("WFC", "SAC")
    for _ in range(100):
        p = random_pair(rng, s["basis"], 6 if circuit else 9)
        na = int(rng.integers(2, 4)) if not circuit else 2
        na = min(na, p.norb)
        ne = 2 * int(rng.integers(1, na)) if na > 1 else 2
        ni = (p.nelec - ne) // 2
        if ni >= 0 and ni + na <= p.norb and np.linalg.cond(p.S) < 1e6:
            break
    cas = (ne, na)
    ctx = {"atoms": p.atoms, "basis": p.basis, "charge": p.charge, "cas": cas, "wf": kind}
    if p.charge:
        m._ev("charged")
    sq = p.own()
    if s["own"]:
        with hist.quiet():
            sq.init_hartree_fock()
            sq.hartree_fock.run_restricted_hartree_fock()
        Ca = np.array(sq.hartree_fock.mo_coeff)
        Cb = p.to_pyscf(Ca)
        m._ev("own_orbitals")
    else:
        Cb = O.random_mo(rng, p.S)
        Ca = p.to_own(Cb)
    act = bool(rng.integers(2))
    nm, opt = [("tups", {"n_layers": 1}), ("ksafupccgsd", {"n_layers": 1}), ("fucc", {"n_layers": 1, "S": True, "D": True})][int(rng.integers(3))]
    st = ref = None
    if kind.startswith("SA"):
        st, ref = hist.random_sa_states(rng, O.sector(na, ne // 2, ne // 2), na, 2, "random" if not circuit else "pairs")

    def build(C, src):
        C = C.copy()
        if kind == "UCC":
            return UCC(cas, C, src, "SD", include_active_kappa=act)
        if kind == "UPS":
            return UPS(cas, C, src, nm, dict(opt), include_active_kappa=act)
        if kind == "SAUPS":
            return SAUPS(cas, C, src, copy.deepcopy(st), nm, dict(opt), include_active_kappa=act)
        q = p19.QI(p19.exact(), nm, p19.mapper(qmap.JW, (ne // 2, ne // 2)), ansatz_options=dict(opt))
        if kind == "WFC":
            return p19.WFC(cas, C, src, q, include_active_kappa=act)
        return SAC(cas, C, src, copy.deepcopy(st), q, include_active_kappa=act)

    with hist.quiet():
        a, b = build(Ca, sq), build(Cb, p.fresh_mole())
    m.true("parameters", len(a.thetas) == len(b.thetas) and len(a.kappa) == len(b.kappa), **ctx)
    if kind == "WFC":
        sv = UPS(cas, Cb.copy(), p.fresh_mole(), nm, dict(opt), include_active_kappa=act)
    elif kind == "SAC":
        sv = SAUPS(cas, Cb.copy(), p.fresh_mole(), copy.deepcopy(st), nm, dict(opt), include_active_kappa=act)
    else:
        sv = b
    if ref is not None:
        bs = O.sector(na, ne // 2, ne // 2)
        ref = ref[:, [list(bs).index(int(d)) for d in sv.ci_info.idx2det]]
    M = hist.Model(sv, p, Cb, refs=ref)
    en = "sa_energy" if kind.startswith("SA") else "energy_elec"
    sc = 1 + abs(M.energy())
    for step in range(s["steps"] if not circuit else 2):
        t = hist.random_list(rng, len(M.thetas), 1.5)
        k = hist.random_list(rng, len(M.kappa), 0.5)
        if step and rng.random() < 0.3:
            t = [float(x) + float(rng.normal() * 10 ** rng.uniform(-5, -4)) for x in M.thetas]
            k = [float(x) + float(rng.normal() * 10 ** rng.uniform(-5, -4)) for x in M.kappa]
        for w in (a, b):
            w.thetas = list(t)
            if len(k):
                w.kappa = list(k)
        M.set_thetas(t)
        if len(k):
            M.set_kappa(k)
        m.case({**ctx, "t": t[:1], "k": k[:1], "step": step})
        ea, eb = float(getattr(a, en)), float(getattr(b, en))
        m.close("same_energy", ea, eb, 1e-8 * sc, **ctx)
        m.close("energy", ea, M.energy(), 1e-7 * sc, **ctx)
        m.close("same_orbitals", p.to_pyscf(np.array(a.c_mo)), np.array(b.c_mo), 1e-8 * (1 + float(np.max(np.abs(M.C)))), **ctx)
        m.close("same_integrals", np.array(a.h_mo), np.array(b.h_mo), 1e-8 * sc, **ctx)
        m.close("same_integrals", np.array(a.g_mo), np.array(b.g_mo), 1e-8 * sc, **ctx)
        if circuit:
            m._ev("circuit")
        if kind.startswith("SA"):
            m.close("same_state_energies", np.array(a.energy_states), np.array(b.energy_states), 1e-8 * sc, **ctx)
            w, V = np.linalg.eigh(M.state_matrix())
            if np.min(np.diff(w)) > 1e-3:
                fa, fb = np.array(a.get_oscillator_strenghts()), np.array(b.get_oscillator_strenghts())
                m.close("same_strengths", fa, fb, 1e-6, **ctx)
                f = 2 / 3 * (w[1:] - w[0]) * sum((V[:, 1:].T @ M.onebody_matrix(d) @ V[:, 0]) ** 2 for d in p.dip)
                m.close("strengths", fa, f, 1e-5, **ctx)
                X = p.dip[1] + 0.4 * p.h
                ta, tb = np.array(a.get_transition_property(p.down(X))), np.array(b.get_transition_property(X))
                m.close("same_transition_property", ta**2, tb**2, 1e-6 * sc, **ctx)
    if len(M.thetas):
        x = np.array(hist.random_list(rng, len(M.kappa) + len(M.thetas), 0.4))
        outs = []
        for w in (a, b):
            got, probe = objective(w)
            got["x"] = x
            with hist.quiet(), hist.Capture(probe):
                w.run_wf_optimization_1step("bfgs", len(M.kappa) > 0)
            outs.append(got["out"][0])
        m.close("same_energy", outs[0][1], outs[1][1], 1e-8 * sc, why="objective", **ctx)
        for i in range(len(x)):
            m.close("same_gradient", outs[0][2][i], outs[1][2][i], 2e-6 * sc, i=i, **ctx)


def run_lr(s, m, rng):
    pairs = []

    def molecule(rng, name, basis=None):
        mol = lrcases.molecule(rng, name, basis)
        at = [(e, tuple(float(v) * B.ANG for v in x)) for e, x in mol.atoms]
        pr = Pair(at, mol.basis, mol.charge)
        pairs.append(pr)
        return pr

    d = lrcases.make(rng, s, UPS, UCC, molecule_fn=molecule)
    p = pairs[-1]
    cas = tuple(s["cas"])
    Ca = p.to_own(d["C"])
    with hist.quiet():
        if s["wf"][0] == "UCC":
            a = UCC(cas, Ca, p.own(), s["wf"][1])
        else:
            a = UPS(cas, Ca, p.own(), s["wf"][1], {})
        a.thetas = d["thetas"]
    b = d["wf"]
    m.close("same_energy", float(a.energy_elec), float(b.energy_elec), 1e-8, id=s["id"])
    for form in lr.FORMS:
        ctx = {"form": form, "id": s["id"], "atoms": p.atoms}
        with hist.quiet():
            oa, ob = LR[form](a, excitations="SD"), LR[form](b, excitations="SD")
            E2 = np.block([[ob.A, ob.B], [ob.B, ob.A]])
            S2 = np.block([[ob.Sigma, ob.Delta], [-ob.Delta, -ob.Sigma]])
            smin = np.min(np.abs(np.linalg.eigvals(S2)))
            if np.linalg.eigvalsh((E2 + E2.T) / 2)[0] < 1e-3 or smin < 1e-2:
                continue
            oa.calc_excitation_energies()
            ob.calc_excitation_energies()
            ta, tb = np.array(oa.get_transition_dipole()), np.array(ob.get_transition_dipole())
            fa, fb = np.array(oa.get_oscillator_strength()), np.array(ob.get_oscillator_strength())
        m.case(ctx)
        wa, wb = np.array(oa.excitation_energies), np.array(ob.excitation_energies)
        m.close("response_energies", wa, wb, 1e-6 / smin, **ctx)
        gr = lr.groups(wb, 1e-3)
        m.close("response_strengths", [sum(fa[k] for k in g) for g in gr], [sum(fb[k] for k in g) for g in gr], 2e-5 / smin, **ctx)
        for g in gr:
            if len(g) == 1:
                m.close("response_dipole", np.outer(ta[g[0]], ta[g[0]]), np.outer(tb[g[0]], tb[g[0]]), 2e-5 / smin, **ctx)
