"""P19 circuits: operator mapping, excitation circuits on every index combination, whole ansaetze, before and after transpilation."""
import itertools

import numpy as np
import scipy.sparse.linalg as ssl

from lib import gens, hist, mols, qmap
from lib import oracle as O

RULE = ("fermion-to-qubit images of random operators against an independent bit-level encoding; every single, spin-adapted single and double excitation circuit (all index tuples and orders on 2..5 orbitals, three encodings) applied to random "
        "full-Hilbert-space states against the exponential of the generator; whole circuit wave functions (all ansatz names and options, encodings, device layouts) against the own state: random operators, energy, density matrices; "
        "a case is one operator, one (circuit, angle) or one wave function")
ASSUMPTIONS = ["exact (noiseless, infinite shot) Aer sampler", "Qiskit's qubit order: qubit 0 is the least significant bit; alpha spin orbitals first"]
REQUIRED = {"mapped": 60, "single": 40, "double": 100, "sa_single": 20, "composition": 12, "expectation": 60, "energy": 20, "rdm": 40, "transpiled_expectation": 12, "device_qubits_permuted": 2, "matches_statevector_class": 20, "custom_circuit": 3,
            "pairing": 1, "toggled_transpilation": 3}
JOBS = 7


def load():
    global QI, WFC, UPS, UpsStructure, FermionicOperator, mappers, Sampler
    from slowquant.qiskit_interface.circuit_wavefunction import WaveFunctionCircuit as WFC
    from slowquant.qiskit_interface.interface import QuantumInterface as QI
    from slowquant.unitary_coupled_cluster.fermionic_operator import FermionicOperator
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS as UPS
    from slowquant.unitary_coupled_cluster.util import UpsStructure
    from qiskit_nature.second_q import mappers
    from qiskit_aer.primitives import Sampler


def warm():
    pass


ENC = [qmap.JW, qmap.PAR, qmap.TAP]


def scenarios(tier, seed):
    big = tier != "quick"
    out = []
    for n in (2, 3, 4):
        for e in ENC:
            out.append({"id": f"map-{n}-{e}", "kind": "map", "n": n, "enc": e, "count": (9 if n < 4 else 4) * (4 if big else 1)})
    for n in (2, 3, 4, 5):
        for e in ENC:
            if n == 5 and e != qmap.JW and not big:
                continue
            for part in range({2: 1, 3: 1, 4: 3, 5: 4}[n]):
                out.append({"id": f"exc-{n}-{e}-{part}", "kind": "exc", "n": n, "enc": e, "part": part, "parts": {2: 1, 3: 1, 4: 3, 5: 4}[n], "max": {2: 999, 3: 999, 4: 34, 5: 14}[n] * (10 if big else 1)})
    for i in range(4 if not big else 16):
        out.append({"id": f"comp-{i}", "kind": "comp", "n": 3, "enc": ENC[i % 3], "count": 4})
    nms = [("tups", {"n_layers": 1}), ("tups", {"n_layers": 2, "skip_last_singles": True}), ("qnp", {"n_layers": 2}), ("fuccsd", {}), ("fuccd", {}), ("fuccpd", {}), ("ksafupccgsd", {"n_layers": 2}), ("sdsfuccsd", {}), ("ksasdsfupccgsd", {}),
           ("fucc", {"GS": True, "pD": True, "n_layers": 2}), ("fucc", {"SAS": True, "GD": True}), ("hf", {}), ("tups", {"n_layers": 2, "do_pp": True})]
    cas = [(2, 2), (2, 3), (4, 3), (4, 4)]
    k = 0
    for r in range(1 if not big else 4):
        for j, (nm, opt) in enumerate(nms):
            for e in range(3):
                if opt.get("do_pp") and ENC[e] != qmap.JW:
                    continue
                c = cas[(j + e + r + seed) % (3 if not big else 4)]
                if opt.get("do_pp"):
                    c = [(4, 3), (2, 3), (4, 4), (2, 2)][(r + seed) % 4]
                out.append({"id": f"wf-{nm}{j}-{ENC[e]}-{c}-{r}", "kind": "wf", "ansatz": nm, "opt": opt, "enc": ENC[e], "cas": list(c), "isa": k % 3 == 0})
                k += 1
    for r in range(3 if not big else 8):
        out.append({"id": f"custom-{r}", "kind": "custom", "enc": ENC[r % 3], "cas": [2, 2]})
        out.append({"id": f"toggle-{r}", "kind": "toggle", "enc": ENC[r % 3], "cas": [2, 2] if r % 2 else [2, 3]})
    return out


def mapper(kind, nelec):
    return {qmap.JW: mappers.JordanWignerMapper, qmap.PAR: mappers.ParityMapper, qmap.TAP: lambda: mappers.ParityMapper(num_particles=nelec)}[kind]()


def exact():
    return Sampler(run_options={"shots": None}, transpile_options={"optimization_level": 0})


def backend(nq, rng):
    """Device with a random connected coupling map and no noise information needed."""
    from qiskit.providers.fake_provider import GenericBackendV2
    n = nq + int(rng.integers(0, 3))
    perm = [int(x) for x in rng.permutation(n)]
    edges = [[perm[i], perm[i + 1]] for i in range(n - 1)]
    if rng.random() < 0.5:
        edges.append([perm[0], perm[-1]])
    return GenericBackendV2(n, coupling_map=edges + [e[::-1] for e in edges], seed=int(rng.integers(1 << 30)))


def layout(types, idx):
    u = UpsStructure()
    u.excitation_operator_type = list(types)
    u.excitation_indices = list(idx)
    u.n_params = len(types)
    return u


def interface(ansatz, enc, n, nelec, **kw):
    with hist.quiet():
        q = QI(exact(), ansatz, mapper(enc, nelec), **kw)
        na, nb = nelec
        q.construct_circuit(list(range(na)), list(range(na, n)), [2 * i + s for i in range(na) for s in (0, 1)], [2 * i + s for i in range(na, n) for s in (0, 1)], n, nelec)
    return q


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def random_terms(rng, n, nterm, conserving=True):
    out = {}
    for _ in range(nterm):
        k = int(rng.integers(0, 4))
        while True:
            a = [int(x) for x in rng.integers(0, 2 * n, k)]
            b = [int(x) for x in rng.integers(0, 2 * n, k)]
            if sum(x % 2 for x in a) == sum(x % 2 for x in b):
                break
        st = tuple((x, True) for x in a) + tuple((x, False) for x in b)
        out[st] = out.get(st, 0.0) + float(rng.normal())
    return out


def fop(terms):
    """The code's operator for our terms, built with its own arithmetic (products of ladder operators are normal ordered by the code)."""
    from slowquant.unitary_coupled_cluster.operators import a_op_spin
    tot = FermionicOperator({})
    for st, c in terms.items():
        o = FermionicOperator({(): 1.0}) if not st else None
        for k, d in st:
            a = a_op_spin(k, d)
            o = a if o is None else o * a
        tot = tot + c * o
    return tot


def run_map(s, m, rng):
    n = s["n"]
    for _ in range(s["count"]):
        na = int(rng.integers(1, n)) if n > 1 else 1
        enc = qmap.Enc(s["enc"], n, (na, na))
        terms = random_terms(rng, n, int(rng.integers(1, 8)))
        o = fop(terms)
        m.case({"id": s["id"], "terms": {str(k): v for k, v in terms.items()}})
        q = interface("hf", s["enc"], n, (na, na))
        M = q.op_to_qbit(o).to_matrix()
        # the tapered image is only defined on the states with the tapered parities; spin conserving operators stay there
        m.close("mapped", M, enc.matrix(qmap.op(terms.items(), n)), 1e-10, enc=s["enc"])


def circuit_matrix_on(circ, theta, psi):
    from qiskit.quantum_info import Statevector
    if circ.num_parameters:
        circ = circ.assign_parameters(theta)
    return np.asarray(Statevector(psi).evolve(circ).data)


def randstate(rng, d):
    v = rng.normal(size=d) + 1j * rng.normal(size=d)
    return v / np.linalg.norm(v)


def excitations(n):
    out = []
    for i in range(n):
        for a in range(i + 1, n):
            out.append(("sa_single", (i, a)))
    for i in range(2 * n):
        for a in range(i + 1, 2 * n):
            if i % 2 == a % 2:
                out.append(("single", (i, a)))
    for quad in itertools.combinations(range(2 * n), 4):
        i, j, a, b = quad
        if i % 2 + j % 2 == a % 2 + b % 2:
            for x in ((i, j), (j, i)):
                for y in ((a, b), (b, a)):
                    out.append(("double", x + y))
    return out


def run_exc(s, m, rng):
    n = s["n"]
    al = excitations(n)
    if s["enc"] == qmap.JW:  # pairs of one spin to pairs of the other: hand-made layouts the circuits also accept
        al = al + [("double", x) for i, j, a, b in itertools.combinations(range(2 * n), 4) if abs(i % 2 + j % 2 - a % 2 - b % 2) == 2 for x in ((i, j, a, b), (j, i, a, b), (i, j, b, a))]
        rng0 = np.random.default_rng(n)
        al = [al[i] for i in rng0.permutation(len(al))]
    mine = al[s["part"]:: s["parts"]]
    if len(mine) > s["max"]:
        mine = [mine[i] for i in sorted(rng.choice(len(mine), s["max"], replace=False))]
    na = n // 2 if n > 1 else 1
    enc = qmap.Enc(s["enc"], n, (na, na))
    for t, idx in mine:
        th = float(rng.uniform(-np.pi, np.pi))
        m.case({"id": s["id"], "type": t, "idx": idx, "theta": th})
        q = interface(layout([t], [idx]), s["enc"], n, (na, na))
        T = qmap.op(gens.excitation(t, idx), n)
        G = enc.sparse(T - T.T)
        psi = randstate(rng, 1 << enc.nq)
        m.close(t, circuit_matrix_on(q.ansatz_circuit, [th], psi), ssl.expm_multiply(th * G, psi), 1e-9, type=t, idx=idx, enc=s["enc"], theta=th)


def run_comp(s, m, rng):
    """Several excitations in a row: parameter order, one parameter per excitation, order of action, reference state."""
    n = s["n"]
    al = excitations(n)
    for _ in range(s["count"]):
        na = int(rng.integers(1, n))
        enc = qmap.Enc(s["enc"], n, (na, na))
        k = int(rng.integers(11, 14)) if rng.random() < 0.5 else int(rng.integers(2, 6))
        pick = [al[int(i)] for i in rng.integers(0, len(al), k)]
        th = [float(x) for x in rng.uniform(-2, 2, k)]
        m.case({"id": s["id"], "pick": pick, "theta": th})
        q = interface(layout([p[0] for p in pick], [p[1] for p in pick]), s["enc"], n, (na, na))
        hf = sum(1 << (2 * n - 1 - x) for x in range(2 * na))
        v = enc.state([1.0], [hf])
        for (t, idx), x in zip(pick, th):
            T = qmap.op(gens.excitation(t, idx), n)
            v = ssl.expm_multiply(x * enc.sparse(T - T.T), v)
        zero = np.zeros(1 << enc.nq)
        zero[0] = 1.0
        got = circuit_matrix_on(q.circuit, th, zero)
        m.close("composition", np.outer(got, got.conj()), np.outer(v, v), 1e-9, pick=pick, enc=s["enc"])
        q.parameters = th
        terms = random_terms(rng, n, 4)
        m.close("expectation", float(q.quantum_expectation_value(fop(terms))), float(v @ (enc.sparse(qmap.op(terms.items(), n)) @ v)), 1e-8, enc=s["enc"])


def build(s, rng, isa=False, C=None, mol=None, ups=True):
    cas = tuple(s["cas"])
    mol = mol or mols.hydrogens(rng, 4)
    C = mols.random_mo(rng, mol, 0.3) if C is None else C
    nelec = (cas[0] // 2,) * 2
    kw = {}
    nq = 2 * cas[1] - (2 if s["enc"] == qmap.TAP else 0)
    if isa:
        kw = {"ISA": True, "pass_manager_options": {"backend": backend(nq, rng), "seed_transpiler": int(rng.integers(1 << 30)), "optimization_level": int(rng.integers(0, 4))}}
    with hist.quiet():
        u = UPS(cas, C.copy(), mol.fresh_mole(), "fuccsd" if s["ansatz"] in ("hf", "fuccd") else s["ansatz"], ansatz_options=dict(s["opt"])) if ups else None
        q = QI(exact(), s["ansatz"], mapper(s["enc"], nelec), ansatz_options=dict(s["opt"]) or None, **kw)
        w = WFC(cas, C.copy(), mol.fresh_mole(), q)
    return mol, C, u, q, w


def run_wf(s, m, rng):
    mol, C, u, q, w = build(s, rng, False)
    nm = s["ansatz"]
    th = [float(x) for x in rng.uniform(-1.5, 1.5, len(w.thetas))]
    m.case({"id": s["id"], "geometry": mol.text, "thetas": th})
    if nm == "hf":
        ut = [0.0] * len(u.thetas)
    elif nm == "fuccd":  # the state-vector class has no doubles-only name: the doubles are the tail of singles-and-doubles
        ns = sum(t == "single" for t in u.ups_layout.excitation_operator_type)
        ut = [0.0] * ns + th
    else:
        ut = th
    if not m.true("parameter_count", len(ut) == len(u.thetas), got=len(w.thetas), want=len(u.thetas)):
        return
    u.thetas = ut
    w.thetas = th
    model = hist.Model(u, mol, np.array(u.c_mo))
    model.set_thetas(ut)
    st, na = model.state, model.na
    enc = qmap.Enc(s["enc"], na, (s["cas"][0] // 2,) * 2)
    v = enc.state(st, model.dets)
    if s["opt"].get("do_pp"):
        m._ev("pairing")
        m.close("pairing_orbitals", w.c_mo, u.c_mo, 1e-10)
    for _ in range(4):
        terms = random_terms(rng, na, int(rng.integers(1, 6)))
        ref = float(st @ (model.sec.op({}) @ st)) + sum(c * float(st @ (model.sec.string(k) @ st)) for k, c in terms.items())
        assert abs(ref - float(v @ (enc.sparse(qmap.op(terms.items(), na)) @ v))) < 1e-9
        m.close("expectation", float(q.quantum_expectation_value(fop(terms))), ref, 1e-8, enc=s["enc"])
    m.close("energy", float(w.energy_elec), model.energy(), 1e-7)
    m.close("rdm", w.rdm1, model.rdm1(), 1e-8, which=1)
    m.close("rdm", w.rdm2, model.rdm2(), 1e-8, which=2)
    m.true("matches_statevector_class", abs(float(w.energy_elec) - float(u.energy_elec)) < 1e-7 and np.max(np.abs(np.array(w.rdm2) - np.array(u.rdm2))) < 1e-7)
    # custom parameters do not disturb the stored ones
    th2 = [float(x) for x in rng.uniform(-1.5, 1.5, len(th))]
    if th2:
        model.set_thetas(([0.0] * (len(ut) - len(th)) + th2) if nm == "fuccd" else th2)
        s2 = model.state
        ref2 = sum(c * float(s2 @ (model.sec.string(k) @ s2)) for k, c in terms.items())
        m.close("expectation", float(q.quantum_expectation_value(fop(terms), custom_parameters=th2)), ref2, 1e-8, custom=True)
        m.close("expectation", float(q.quantum_expectation_value(fop(terms))), ref, 1e-8, again=True)
        model.set_thetas(ut)
    if s["isa"] and nm != "hf":
        _, _, _, q2, w2 = build(s, rng, True, C, mol, ups=False)
        w2.thetas = th
        if q2.ansatz_circuit.layout is not None and list(q2.ansatz_circuit.layout.final_index_layout()) != list(range(q2.num_qubits)):
            m._ev("device_qubits_permuted")
        for _ in range(3):
            terms = random_terms(rng, na, int(rng.integers(1, 6)))
            ref = sum(c * float(st @ (model.sec.string(k) @ st)) for k, c in terms.items())
            m.close("transpiled_expectation", float(q2.quantum_expectation_value(fop(terms))), ref, 1e-7, enc=s["enc"])
        m.close("energy", float(w2.energy_elec), model.energy(), 1e-6, transpiled=True)


def run_custom(s, m, rng):
    """A user-supplied circuit is taken as it is (state preparation included)."""
    s = {**s, "ansatz": "fuccsd", "opt": {}}
    mol, C, u, q, w = build(s, rng)
    th = [float(x) for x in rng.uniform(-1.5, 1.5, len(w.thetas))]
    w.thetas, u.thetas = th, th
    with hist.quiet():
        q2 = QI(exact(), q.circuit.copy(), mapper(s["enc"], (1, 1)))
        w2 = WFC((2, 2), C.copy(), mol.fresh_mole(), q2)
    w2.thetas = th
    m.case({"id": s["id"], "thetas": th})
    m.close("custom_circuit", float(w2.energy_elec), float(u.energy_elec), 1e-7)


def run_toggle(s, m, rng):
    """Switching transpilation on, changing its settings, and switching it off leaves every value as it was."""
    s = {**s, "ansatz": "fuccsd", "opt": {}}
    mol, C, u, q, w = build(s, rng)
    th = [float(x) for x in rng.uniform(-1.5, 1.5, len(w.thetas))]
    w.thetas, u.thetas = th, th
    e = float(u.energy_elec)
    m.case({"id": s["id"], "thetas": th})
    nq = q.num_qubits
    terms = random_terms(rng, s["cas"][1], 4)
    model = hist.Model(u, mol, C)
    model.set_thetas(th)
    ref = sum(c * float(model.state @ (model.sec.string(k) @ model.state)) for k, c in terms.items())
    for step in range(5):
        with hist.quiet():
            k = int(rng.integers(3)) if step else 0
            if k == 0:
                q.update_pass_manager({"backend": backend(nq, rng), "seed_transpiler": int(rng.integers(1 << 30)), "optimization_level": int(rng.integers(0, 4))})
            elif k == 1:
                q.ISA = True
            else:
                q.ISA = False
            w.thetas = [0.0] * len(th)
            w.thetas = th
        m.close("toggled_transpilation", float(w.energy_elec), e, 1e-6, step=k)
        m.close("toggled_transpilation", float(q.quantum_expectation_value(fop(terms))), ref, 1e-6, step=k)
