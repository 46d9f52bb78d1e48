"""P20: reusing and grouping measurements never changes results."""
from __future__ import annotations

import os
import tempfile

import numpy as np
import scipy.sparse.linalg as ssl

from lib import device, gens, hist, mols, qmap
from checks import p19

RULE = ("histories of parameter changes, evaluations, mitigation, shot, layout and primitive changes, calibration repeats and save/load on interfaces whose device is an instrumented sampler with exact, qubit-dependent readout noise; "
        "after every step the reported value must equal an independent prediction for a fresh measurement of every Pauli string at the current settings (or, on transpiled circuits, the value of a freshly built interface)")
ASSUMPTIONS = ["stored results are loaded at the parameters and settings they were measured with (the file does not carry them)",
               "readout noise is uncorrelated between qubits, so that the value of a Pauli string does not depend on the group it is measured in"]
REQUIRED = {"value": 150, "value_custom": 12, "value_after_inplace_change": 8, "value_after_primitive_change": 8, "value_after_flag_change": 30, "value_loaded": 2, "value_layout": 12, "value_after_layout_change": 5, "value_recalibrated": 3, "determinant_value": 3, "superposition_value": 24, "reused_without_device_call": 20, "all_paulis_of_pool": 3}
JOBS = 7
ENC = p19.ENC


def load():
    p19.load()


def warm():
    pass


def scenarios(tier, seed):
    big = tier != "quick"
    out = []
    for i in range(14 if not big else 90):
        out.append({"id": f"hist-{i}", "kind": "hist", "n": 2 if i % 4 else 3, "enc": ENC[i % 3], "steps": 26 if not big else 40, "readout": i % 5 != 4})
    for i in range(6 if not big else 36):
        out.append({"id": f"isa-{i}", "kind": "isa", "n": 2, "enc": ENC[i % 3], "steps": 14, "gate": 0.01 if i % 2 else 0.0})
    for i in range(3 if not big else 12):
        out.append({"id": f"recal-{i}", "kind": "recal", "n": 2, "enc": ENC[i % 3]})
        out.append({"id": f"csf-{i}", "kind": "csf", "n": 2, "enc": qmap.JW})
        out.append({"id": f"pool-{i}", "kind": "pool", "n": 2 if i % 2 else 3, "enc": ENC[i % 3]})
    return out


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


class Obj:
    """A circuit wave function on a chain of random excitations, its device, and the independent state for any parameters."""

    def __init__(self, s, rng, **kw):
        self.s, self.rng, self.n = s, rng, s["n"]
        self.na = 1 if self.n == 2 else int(rng.integers(1, self.n))
        self.enc = qmap.Enc(s["enc"], self.n, (self.na, self.na))
        al = p19.excitations(self.n)
        self.pick = [al[int(i)] for i in rng.integers(0, len(al), int(rng.integers(2, 5)))]
        self.mol = mols.hydrogens(rng, 4)
        self.C = mols.random_mo(rng, self.mol, 0.2)
        self.nphys = self.enc.nq
        self.device = self.new_device() if s.get("readout", True) else device.Device()
        self.kw = kw
        self.w = self.build()
        self.q = self.w.QI
        self.theta = [0.0] * len(self.pick)
        self.gens = []
        for t, idx in self.pick:
            T = qmap.op(gens.excitation(t, idx), self.n)
            self.gens.append(self.enc.sparse(T - T.T))
        self.flags = dict(do_M_mitigation=False, do_M_ansatz0=False, do_M_ansatz0_plus=False, do_postselection=False)

    def new_device(self):
        return device.Device(readout=device.confusion(self.rng, self.nphys, 0.15), gate=self.s.get("gate", 0.0))

    def build(self, dev=None, **kw):
        with hist.quiet():
            q = p19.QI(dev or self.device, p19.layout([p[0] for p in self.pick], [p[1] for p in self.pick]), p19.mapper(self.s["enc"], (self.na, self.na)), **{**self.kw, **kw})
            return p19.WFC((2 * self.na, self.n), self.C.copy(), self.mol.fresh_mole(), q)

    def state(self, theta, det=None):
        """Interleaved determinant string or the lowest orbitals filled."""
        n = self.n
        d = int(det, 2) if det else sum(1 << (2 * n - 1 - x) for x in range(2 * self.na))
        v = self.enc.state([1.0], [d])
        for G, x in zip(self.gens, theta):
            v = ssl.expm_multiply(x * G, v)
        return v

    def op(self, kind=None):
        rng, n = self.rng, self.n
        k = kind or rng.choice(["random", "number", "hopping", "pair", "identity"], p=[0.5, 0.15, 0.15, 0.15, 0.05])
        if k == "random":
            t = p19.random_terms(rng, n, int(rng.integers(1, 5)))
        elif k == "identity":
            t = {(): float(rng.normal())}
        elif k == "number":
            t = {((int(x), True), (int(x), False)): 1.0 for x in rng.integers(0, 2 * n, 2)}
        elif k == "hopping":
            p, q = (int(x) for x in rng.integers(0, n, 2))
            t = {((2 * p + s, True), (2 * q + s, False)): 1.0 for s in (0, 1)}
        else:
            p, q, r, z = (int(x) for x in rng.integers(0, n, 4))
            t = {((2 * p, True), (2 * q + 1, True), (2 * r + 1, False), (2 * z, False)): 1.0, ((2 * z, True), (2 * r + 1, True), (2 * q + 1, False), (2 * p, False)): 1.0}
        M = self.enc.matrix(qmap.op(t.items(), n))
        return p19.fop(t), device.pauli_terms(M, self.enc.nq), {str(k): v for k, v in t.items()}

    def predict(self, terms, theta=None, det=None, **over):
        f = {**self.flags, **over}
        return device.Measured(self.enc, (self.na, self.na), self.device.readout, f["do_M_mitigation"], f["do_postselection"]).value(self.state(self.theta if theta is None else theta, det), terms)

    def set_flags(self):
        rng = self.rng
        want = {k: bool(rng.random() < 0.5) for k in ("do_M_mitigation", "do_M_ansatz0", "do_postselection") if rng.random() < 0.7}
        with hist.quiet():
            self.q.update_mitigation_flags(**want)
        self.flags.update(want)
        if self.flags["do_M_ansatz0"]:
            self.flags["do_M_mitigation"] = True
        return want

    def dets(self):
        """Determinants (interleaved strings) with the reference electron numbers."""
        n = self.n
        return [format(i, f"0{2 * n}b") for i in range(1 << 2 * n)
                if sum(int(c) for c in format(i, f"0{2 * n}b")[::2]) == self.na and sum(int(c) for c in format(i, f"0{2 * n}b")[1::2]) == self.na]


TOL = 1e-7  # the calibration circuits of the ansatz-based correction run at parameters of 1e-8


def run_hist(s, m, rng):
    o = Obj(s, rng)
    pool = [o.op() for _ in range(5)] + [o.op("random")]
    log = []
    tag = None
    files = tempfile.mkdtemp(prefix="p20-")
    saved = None  # file, theta, flags-independent
    last, tiny, mine = None, False, None
    try:
        for step in range(s["steps"]):
            a = rng.choice(["eval", "set", "same", "inplace", "custom", "flags", "redo", "primitive", "shots", "save", "load", "det", "cliques", "variance", "own"],
                           p=[0.16, 0.10, 0.03, 0.06, 0.08, 0.14, 0.02, 0.04, 0.03, 0.07, 0.09, 0.10, 0.01, 0.0, 0.07])
            log.append(str(a))
            m.case({"id": s["id"], "excitations": o.pick, "electrons": 2 * o.na, "log": log[-20:]})
            with hist.quiet():
                if a == "set":
                    r = rng.random()
                    if r < 0.2:
                        o.theta = [float(x) + float(rng.normal() * 10 ** rng.uniform(-5, -3)) for x in o.theta]
                    elif r < 0.5:  # all of them by a few millionths, as at the end of an optimisation
                        o.theta = [float(x + rng.choice([-1, 1]) * 10 ** rng.uniform(-5.3, -5) * min(1.5, max(abs(x), 0.2))) for x in o.theta]
                        tiny = True
                    else:
                        o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
                    if rng.random() < 0.5:
                        o.w.thetas = list(o.theta)
                    elif rng.random() < 0.5:
                        mine = list(o.theta)
                        o.q.parameters = mine
                    else:
                        o.q.parameters = list(o.theta)
                    saved, tag = None, "set"
                elif a == "own":  # the caller keeps its list, changes it, and perhaps hands it over again
                    if mine is None or mine != o.theta:
                        mine = list(o.theta)
                        o.q.parameters = mine
                    k = int(rng.integers(len(mine)))
                    mine[k] += 0.9
                    if rng.random() < 0.7:
                        o.q.parameters = mine
                        o.theta = list(mine)
                        saved = None
                    tag = "inplace"
                elif a == "same":
                    o.w.thetas = list(o.theta)
                elif a == "inplace":  # read, change, write back
                    t = o.w.thetas if rng.random() < 0.5 else o.q.parameters
                    k = int(rng.integers(len(t)))
                    t[k] += 0.7
                    o.w.thetas = t
                    o.theta[k] += 0.7
                    saved, tag = None, "inplace"
                elif a == "flags":
                    log[-1] += str(o.set_flags())
                    tag = "flags"
                elif a == "redo":
                    if o.enc.nq <= 6:
                        o.q.redo_M_mitigation()
                elif a == "primitive":
                    if s["readout"]:
                        o.device = o.new_device()
                        o.w.change_primitive(o.device, verbose=False)
                        saved, tag = None, "primitive"
                elif a == "shots":
                    o.q.shots = [None, 100, 1000][int(rng.integers(3))]
                elif a == "save":
                    saved = os.path.join(files, f"{step}.pkl")
                    o.q.save_paulis_to_file(saved)
                elif a == "cliques" and hasattr(o.q, "_do_cliques"):
                    o.q._do_cliques = not o.q._do_cliques
            if a == "variance":
                continue
            F, T, txt = pool[int(rng.integers(len(pool)))] if rng.random() < 0.6 else o.op()
            if last is not None and (tiny or tag == "inplace"):
                F, T, txt = last
            last, tiny = (F, T, txt), False
            with hist.quiet():
                if a == "load":
                    if saved is None:
                        continue
                    w2 = o.build()
                    w2.thetas = list(o.theta)
                    w2.QI.load_paulis_from_file(saved)
                    w2.QI.update_mitigation_flags(**{k: v for k, v in o.flags.items()})
                    got, ref, name = float(w2.QI.quantum_expectation_value(F)), o.predict(T), "value_loaded"
                elif a == "custom":
                    th = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
                    got, ref, name = float(o.q.quantum_expectation_value(F, custom_parameters=th)), o.predict(T, th), "value_custom"
                elif a == "det":
                    if s["enc"] != qmap.JW or o.flags["do_M_ansatz0"]:
                        continue
                    d = o.dets()[int(rng.integers(len(o.dets())))]
                    got = float(o.q.quantum_expectation_value_csfs(([1.0], [d]), F, ([1.0], [d])))
                    ref, name = o.predict(T, det=d), "determinant_value"
                elif a in ("eval", "set", "inplace", "flags", "primitive", "same", "redo", "shots", "save", "cliques", "own"):
                    n0 = len(o.device.calls)
                    got, ref = float(o.q.quantum_expectation_value(F)), o.predict(T)
                    name = {"inplace": "value_after_inplace_change", "flags": "value_after_flag_change", "primitive": "value_after_primitive_change"}.get(tag, "value")
                    tag = None
                    if len(o.device.calls) == n0:
                        m._ev("reused_without_device_call")
                else:
                    continue
            m.close(name, got, ref, TOL, flags=dict(o.flags), log=log[-12:], op=txt)
            if name != "value":
                m.close("value", got, ref, TOL)
    finally:
        for f in os.listdir(files):
            os.remove(os.path.join(files, f))
        os.rmdir(files)


def run_isa(s, m, rng):
    """Transpiled circuits: physical qubits differ in their noise, and the layout changes under way."""
    nq = qmap.Enc(s["enc"], s["n"], (1, 1)).nq
    nphys = nq + 2
    seed = int(rng.integers(1 << 30))

    def pm():
        return {"backend": p19.backend(nq, rng), "seed_transpiler": int(rng.integers(1 << 30)), "optimization_level": int(rng.integers(0, 4))}
    cur = pm()
    o = Obj({**s, "readout": False}, rng, ISA=True, pass_manager_options=dict(cur))
    o.nphys = nphys
    o.device = o.new_device()
    with hist.quiet():
        o.w.change_primitive(o.device, verbose=False)
    isa = True
    pool = [o.op() for _ in range(4)]
    log = []
    changed = False
    for step in range(s["steps"]):
        a = rng.choice(["eval", "set", "layout", "flags", "toggle", "primitive"], p=[0.3, 0.15, 0.25, 0.15, 0.1, 0.05])
        log.append(str(a))
        m.case({"id": s["id"], "excitations": o.pick, "log": log, "seed": seed})
        with hist.quiet():
            if a == "set":
                o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
                o.w.thetas = list(o.theta)
            elif a == "layout" and isa:
                cur = pm()
                o.q.update_pass_manager(dict(cur))
                changed = True
            elif a == "flags":
                log[-1] += str(o.set_flags())
            elif a == "toggle":
                isa = not isa
                o.q.ISA = isa
                changed = True
            elif a == "primitive":
                o.device = o.new_device()
                o.w.change_primitive(o.device, verbose=False)
            F, T, txt = pool[int(rng.integers(len(pool)))]
            got = float(o.q.quantum_expectation_value(F))
            if not isa and not s["gate"]:
                rd = o.device.readout[: o.enc.nq]
                ref = device.Measured(o.enc, (1, 1), rd, o.flags["do_M_mitigation"], o.flags["do_postselection"]).value(o.state(o.theta), T)
            else:
                w2 = o.build(ISA=isa, pass_manager_options=dict(cur) if isa else None, **o.flags)
                w2.thetas = list(o.theta)
                w2.QI._save_paulis = False
                ref = float(w2.QI.quantum_expectation_value(F))
        name = "value_after_layout_change" if changed else "value_layout"
        changed = False
        m.close(name, got, ref, TOL, log=log, flags=dict(o.flags), op=txt)
        if name != "value_layout":
            m.close("value_layout", got, ref, TOL)
        if o.flags["do_M_mitigation"] and not s["gate"]:
            m.close("corrected_on_device", got, device.Measured(o.enc, (1, 1)).value(o.state(o.theta), T), TOL, log=log, flags=dict(o.flags))


def run_recal(s, m, rng):
    """The correction was calibrated at a bad moment: repeating the calibration must repair the values of measurements already stored."""
    for _ in range(4):
        recal(s, m, rng)


def recal(s, m, rng):
    o = Obj(s, rng)
    o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
    good = o.device.readout
    bad = device.confusion(rng, o.enc.nq, 0.3)
    F, T, txt = o.op("random")
    m.case({"id": s["id"], "op": txt})
    dets = o.dets() if s["enc"] == qmap.JW else []
    dets = [dets[int(i)] for i in rng.permutation(len(dets))[:3]]

    def on_det(d):
        return float(o.q.quantum_expectation_value_csfs(([1.0], [d]), F, ([1.0], [d])))
    with hist.quiet():
        o.w.thetas = list(o.theta)
        m.close("value", float(o.q.quantum_expectation_value(F)), o.predict(T), TOL)
        for d in dets:
            m.close("determinant_value", on_det(d), o.predict(T, det=d), TOL)
        o.device.readout = bad
        o.q.update_mitigation_flags(do_M_mitigation=True)
        v = o.state(o.theta)
        m.close("value", float(o.q.quantum_expectation_value(F)), device.Measured(o.enc, (o.na, o.na), good, True, False, bad).value(v, T), TOL, miscalibrated=True)
        for d in dets:
            m.close("determinant_value", on_det(d), device.Measured(o.enc, (o.na, o.na), good, True, False, bad).value(o.state(o.theta, d), T), TOL, miscalibrated=True)
        o.device.readout = good
        o.q.redo_M_mitigation()
        m.close("value_recalibrated", float(o.q.quantum_expectation_value(F)), device.Measured(o.enc, (o.na, o.na)).value(v, T), TOL, op=txt)
        for d in dets:
            m.close("value_recalibrated", on_det(d), device.Measured(o.enc, (o.na, o.na)).value(o.state(o.theta, d), T), TOL, op=txt, det=d)


def run_csf(s, m, rng):
    """Matrix elements between determinants while the mitigation settings change: the same as from a new interface with these settings."""
    o = Obj(s, rng)
    o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
    D = o.dets()
    pairs = [tuple(D[int(i)] for i in rng.choice(len(D), 2, replace=False)) for _ in range(2)]
    ops = [o.op("pair"), o.op("hopping")]
    names = ("do_M_mitigation", "do_M_ansatz0", "do_M_ansatz0_plus", "do_postselection")
    fixed = [(1, 1, 0, 1), (1, 1, 1, 0), (1, 0, 0, 1), (1, 1, 0, 0), (1, 1, 1, 1), (0, 0, 0, 1)]
    order = [fixed[int(i)] for i in rng.permutation(len(fixed))]
    log = []
    with hist.quiet():
        o.w.thetas = list(o.theta)
    for f in order:
        flags = {k: bool(x) for k, x in zip(names, f)}
        log.append(f)
        for a, b in pairs:
            for F, _, txt in (ops[pairs.index((a, b))],):
                m.case({"id": s["id"], "flags": log, "dets": [a, b], "op": txt})
                with hist.quiet():
                    o.q.update_mitigation_flags(**flags)
                    got = float(o.q.quantum_expectation_value_csfs(([1.0], [a]), F, ([1.0], [b])))
                    w2 = o.build(**flags)
                    w2.thetas = list(o.theta)
                    ref = float(w2.QI.quantum_expectation_value_csfs(([1.0], [a]), F, ([1.0], [b])))
                m.close("superposition_value", got, ref, TOL, flags=log, dets=[a, b], op=txt)


def run_pool(s, m, rng):
    """Every Pauli string that occurs, one operator at a time and in random order, and all at once, from one object."""
    o = Obj(s, rng)
    o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
    with hist.quiet():
        o.w.thetas = list(o.theta)
    n = o.n
    ops = [o.op("hopping") for _ in range(6)] + [o.op("pair") for _ in range(10)] + [o.op("number") for _ in range(3)]
    m.case({"id": s["id"], "excitations": o.pick})
    refs = [o.predict(t) for _, t, _ in ops]
    for r in range(2):
        for i in rng.permutation(len(ops)):
            with hist.quiet():
                m.close("value", float(o.q.quantum_expectation_value(ops[i][0])), refs[i], TOL, op=ops[i][2])
    tot = ops[0][0]
    cs = rng.normal(size=len(ops))
    tot = ops[0][0] * float(cs[0])
    for c, x in zip(cs[1:], ops[1:]):
        tot = tot + x[0] * float(c)
    with hist.quiet():
        m.close("all_paulis_of_pool", float(o.q.quantum_expectation_value(tot)), float(cs @ np.array(refs)), 1e-6)
