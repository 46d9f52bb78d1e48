"""P21: error mitigation and sampling are unbiased and account for shots."""
from __future__ import annotations

import numpy as np
import scipy.stats

from lib import device, hist, qmap
from checks import p19, p20

RULE = ("instrumented samplers with per-qubit readout confusion, exact or drawing shots: corrected values must equal the noise-free ones, post-selected values an independent prediction, "
        "the identity must keep the value one, values over repeated sampling must scatter around the exact ones with the reported variance (two-sided tests with error probability below 1e-9), "
        "and the shots, circuits and calls counted at the device boundary must equal what the interface reports")
ASSUMPTIONS = ["readout noise is uncorrelated between qubits and the calibration circuits see the same noise",
               "a number of shots above the limit per execution is rounded down to a multiple of the limit, as the interface announces"]
REQUIRED = {"noiseless_mitigated": 40, "corrected": 30, "selected": 20, "selected_electrons": 10, "identity": 30, "shots_reported": 20, "calls_reported": 20, "shots_as_requested": 12, "shots_split": 6, "unbiased": 6, "scatter": 6, "variance_exact": 20,
            "variance_unit_coefficients": 8, "variance_diagonal": 6, "unbiased_v2": 2, "superposition_corrected": 4, "calibration_shots": 2}
JOBS = 7
ENC = p19.ENC
TOL = 1e-7


def load():
    p19.load()


def warm():
    pass


def scenarios(tier, seed):
    big = tier != "quick"
    out = []
    k = 4 if big else 1
    for i in range(6 * k):
        out.append({"id": f"noiseless-{i}", "kind": "noiseless", "n": 2 if i % 3 else 3, "enc": ENC[i % 3], "isa": i % 2 == 1, "readout": False})
    for i in range(9 * k):
        out.append({"id": f"readout-{i}", "kind": "readout", "n": 2 if i % 4 else 3, "enc": ENC[i % 3], "isa": (i // 3) % 2 == 1})
    for i in range(6 * k):
        out.append({"id": f"shots-{i}", "kind": "shots", "n": 2, "enc": ENC[i % 3], "v2": i % 2 == 1})
    for i in range(6 * k):
        out.append({"id": f"scatter-{i}", "kind": "scatter", "n": 2, "enc": ENC[i % 3], "mit": [None, None, "sel", "M", None, "M"][i % 6], "reps": 120 if not big else 300})
    for i in range(2 * k):
        out.append({"id": f"v2-{i}", "kind": "v2", "n": 2, "enc": ENC[i % 3], "reps": 30})
    for i in range(6 * k):
        out.append({"id": f"var-{i}", "kind": "var", "n": 2 if i % 3 else 3, "enc": ENC[i % 3], "readout": i % 2 == 1})
    for i in range(3 * k):
        out.append({"id": f"order-{i}", "kind": "order", "n": 60})
        out.append({"id": f"csf-{i}", "kind": "csf", "n": 2, "enc": qmap.JW, "isa": i % 3 != 0})
    return out


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def make(s, rng, dev=None, **kw):
    """Object with random parameters set; on a transpiled circuit the device has spare, differently noisy qubits."""
    nq = qmap.Enc(s["enc"], s["n"], (1, 1)).nq
    if s.get("isa"):
        kw = {**kw, "ISA": True, "pass_manager_options": {"backend": p19.backend(nq, rng), "seed_transpiler": int(rng.integers(1 << 30)), "optimization_level": int(rng.integers(0, 4))}}
    o = p20.Obj({**s, "readout": False}, rng, **kw)
    o.nphys = nq + 2
    if dev is None and s.get("readout", True):
        dev = o.new_device()
    if dev is not None:
        o.device = dev
        with hist.quiet():
            o.w.change_primitive(dev, verbose=False)
    o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
    with hist.quiet():
        o.w.thetas = list(o.theta)
    return o


def exact(o, T, theta=None, det=None):
    return device.Measured(o.enc, (o.na, o.na)).value(o.state(o.theta if theta is None else theta, det), T)


def run_noiseless(s, m, rng):
    o = make(s, rng, device.Device())
    for k in range(8):
        f = {x: bool(rng.random() < 0.5) for x in ("do_M_mitigation", "do_M_ansatz0", "do_M_ansatz0_plus", "do_postselection")}
        F, T, txt = o.op()
        m.case({"id": s["id"], "flags": f, "op": txt, "excitations": o.pick})
        with hist.quiet():
            o.q.update_mitigation_flags(**f)
            if k == 4 and hasattr(o.q, "_do_cliques"):
                o.q._do_cliques = False
                o.q._save_paulis = False
            m.close("noiseless_mitigated", float(o.q.quantum_expectation_value(F)), exact(o, T), TOL, flags=f, op=txt)


def run_readout(s, m, rng):
    o = make(s, rng)
    for k in range(5):
        F, T, txt = o.op()
        f = {"do_M_mitigation": True, "do_M_ansatz0": bool(k % 2), "do_postselection": bool(rng.random() < 0.5)}
        m.case({"id": s["id"], "flags": f, "op": txt, "excitations": o.pick})
        with hist.quiet():
            o.q.update_mitigation_flags(**f)
            m.close("corrected", float(o.q.quantum_expectation_value(F)), exact(o, T), TOL, flags=f, op=txt)
    if s["isa"]:
        return
    with hist.quiet():
        o.q.update_mitigation_flags(do_M_mitigation=False, do_M_ansatz0=False, do_postselection=True)
    ref = device.Measured(o.enc, (o.na, o.na), o.device.readout[: o.enc.nq], False, True)
    for k in range(5):
        F, T, txt = o.op()
        m.case({"id": s["id"], "postselection": True, "op": txt, "excitations": o.pick})
        with hist.quiet():
            m.close("selected", float(o.q.quantum_expectation_value(F)), ref.value(o.state(o.theta), T), TOL, op=txt)
    for sp in (0, 1):
        t = {((2 * p + sp, True), (2 * p + sp, False)): 1.0 for p in range(o.n)}
        with hist.quiet():
            m.close("selected_electrons", float(o.q.quantum_expectation_value(p19.fop(t))), float(o.na), 1e-9, spin=sp)
        t2 = {a + b: 1.0 for a in t for b in t}
        with hist.quiet():
            m.close("selected_electrons", float(o.q.quantum_expectation_value(p19.fop(t2))), float(o.na) ** 2, 1e-9, spin=sp, squared=True)


def run_shots(s, m, rng):
    """Counting at the device boundary."""
    for k in range(4):
        req = int(rng.integers(50, 400))
        mx = [100000, 64, 100, 37][k]
        nq = qmap.Enc(s["enc"], s["n"], (1, 1)).nq
        rd = device.confusion(rng, nq + 2, 0.1)
        if s["v2"]:
            be = p19.backend(nq, rng)
            dev = device.DeviceV2(be, readout=rd, seed=int(rng.integers(1 << 30)))
            o = p20.Obj({**s, "readout": False}, rng)
            with hist.quiet():
                o.kw = {}
                o.w = o.build(dev, shots=req, max_shots_per_run=mx, pass_manager_options={"backend": be, "seed_transpiler": 1, "optimization_level": 1})
                o.q = o.w.QI
                o.device = dev
                o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
                o.w.thetas = list(o.theta)
        else:
            dev = device.Device(readout=rd, sample=True, seed=int(rng.integers(1 << 30)))
            o = make(s, rng, dev, shots=req, max_shots_per_run=mx)
        m.case({"id": s["id"], "shots": req, "limit": mx, "v2": s["v2"]})
        q = o.q
        want = req if req <= mx else (req // mx) * mx
        m.close("shots_as_requested", q.shots, want, 0.0, requested=req, limit=mx)
        f = {"do_M_mitigation": k in (1, 3), "do_postselection": k in (2, 3)}
        with hist.quiet():
            q.update_mitigation_flags(**f)
        s0, c0, n0 = q.total_shots_used, q.total_device_calls, q.total_paulis_evaluated
        dev.calls.clear()
        cf = float(rng.normal())
        for F, txt in ((p19.fop({(): cf}), "identity"), (o.op("pair")[0], "pair"), (o.op("number")[0], "number")):
            with hist.quiet():
                v = float(q.quantum_expectation_value(F))
            if txt == "identity":
                m.close("identity", v, cf, 1e-9, flags=f)
        tot = dev.total_shots()
        m.close("shots_reported", q.total_shots_used - s0, tot, 0.0, flags=f)
        m.close("calls_reported", [q.total_device_calls - c0, (q.total_paulis_evaluated - n0) * (want // mx if req > mx else 1)], [len(dev.calls), dev.total_circuits()], 0.0, flags=f)
        m.true("shots_per_execution", all(c["shots"] is not None and c["shots"] <= mx for c in dev.calls), calls=dev.calls)
        # every distinct measurement got exactly the requested number of shots
        name = "shots_split" if req > mx else "shots_as_requested"
        m.close(name, tot, want * (q.total_paulis_evaluated - n0), 0.0, calls=dev.calls)
        if f["do_M_mitigation"]:
            F, T, txt = o.op("random")
            with hist.quiet():
                m.close("identity", float(q.quantum_expectation_value(F + p19.fop({(): 10.0}))) - float(q.quantum_expectation_value(F)), 10.0, 1e-8, flags=f)


def z_bound(p=1e-10):
    return float(scipy.stats.norm.isf(p))


def run_scatter(s, m, rng):
    """Repeated sampling at fixed parameters: mean and spread against the exact value and the reported variance."""
    shots = 500
    dev = device.Device(readout=device.confusion(rng, 2 * s["n"], 0.08) if s["mit"] == "M" else None, sample=True, seed=int(rng.integers(1 << 30)))
    o = make(s, rng, dev, shots=shots)
    q = o.q
    fl = {"do_M_mitigation": s["mit"] == "M", "do_postselection": s["mit"] == "sel"}
    kind = ["pair", "random", "random"][int(rng.integers(3))]
    # an operator whose value really fluctuates
    for _ in range(30):
        F, T, txt = o.op(kind)
        v = o.state(o.theta)
        meas = device.Measured(o.enc, (o.na, o.na))
        sp = sum(abs(c) ** 2 * (1 - meas.pauli(v, x, z) ** 2) for (x, z), c in T.items())
        if sp > 0.02:
            break
        o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
        with hist.quiet():
            o.w.thetas = list(o.theta)
    else:
        return
    m.case({"id": s["id"], "op": txt, "flags": fl, "theta": o.theta, "excitations": o.pick})
    with hist.quiet():
        q.update_mitigation_flags(**fl)
        if s["mit"] == "M":
            s0, n0 = q.total_shots_used, dev.total_shots()
            q.redo_M_mitigation(shots=1000000)
            m.close("calibration_shots", q.total_shots_used - s0, dev.total_shots() - n0, 0.0)
    ref = exact(o, T)
    vals, var = [], []
    for r in range(s["reps"]):
        with hist.quiet():
            # fresh shots: another parameter vector in between drops the stored ones
            o.w.thetas = [x + 1.0 for x in o.theta]
            o.w.thetas = list(o.theta)
            vals.append(float(q.quantum_expectation_value(F)))
            var.append(float(np.real(q.quantum_variance(F))))
    vals = np.array(vals)
    R = len(vals)
    sd = vals.std(ddof=1)
    for _ in range(R):
        m._ev("samples")
    if sd < 1e-12:
        m.close("unbiased", float(vals.mean()), ref, 1e-6, exact=True)
        return
    # Student t for the mean; the calibration itself was sampled with a million shots
    extra = 0.0 if s["mit"] != "M" else 6e-3 * sum(abs(c) for c in T.values())
    b = float(scipy.stats.t.isf(1e-10, R - 1)) * sd / np.sqrt(R) + extra
    m.true("unbiased", abs(vals.mean() - ref) <= b, mean=float(vals.mean()), exact=ref, bound=b, flags=fl, op=txt)
    if s["mit"] is None:
        # reported variance is an estimate from the same shots: compare averages
        x = (R - 1) * sd ** 2 / np.mean(var)
        lo, hi = scipy.stats.chi2.ppf(1e-10, R - 1) * 0.9, scipy.stats.chi2.isf(1e-10, R - 1) * 1.1
        m.true("scatter", lo <= x <= hi, chi2=float(x), bounds=(float(lo), float(hi)), op=txt, reported=float(np.mean(var)), observed=float(sd ** 2))
        # with independently measured strings
        indep = []
        if hasattr(q, "_do_cliques"):
            with hist.quiet():
                a, bb = q._do_cliques, q._save_paulis
                q._do_cliques = q._save_paulis = False
                for r in range(s["reps"] // 2):
                    indep.append(float(q.quantum_expectation_value(F)))
                vr = float(np.real(q.quantum_variance(F, do_cliques=False)))
                q._do_cliques, q._save_paulis = a, bb
            indep = np.array(indep)
            R2 = len(indep)
            own = sp / shots
            x = (R2 - 1) * indep.var(ddof=1) / own
            m.true("scatter", scipy.stats.chi2.ppf(1e-10, R2 - 1) * 0.95 <= x <= scipy.stats.chi2.isf(1e-10, R2 - 1) * 1.05, chi2=float(x), ungrouped=True, op=txt)
            m.true("scatter", 0.5 * own <= vr <= 2.0 * own or own < 1e-4, reported=vr, own=own, ungrouped=True)


def run_v2(s, m, rng):
    be = p19.backend(qmap.Enc(s["enc"], s["n"], (1, 1)).nq, rng)
    dev = device.DeviceV2(be, seed=int(rng.integers(1 << 30)))
    o = p20.Obj({**s, "readout": False}, rng)
    with hist.quiet():
        o.w = o.build(dev, shots=400, pass_manager_options={"backend": be, "seed_transpiler": 1, "optimization_level": 1})
        o.q, o.device = o.w.QI, dev
        o.theta = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
        o.w.thetas = list(o.theta)
    for kind in ("pair", "hopping", "number"):
        F, T, txt = o.op(kind)
        m.case({"id": s["id"], "op": txt, "theta": o.theta})
        vals = []
        for r in range(s["reps"]):
            with hist.quiet():
                o.w.thetas = [x + 1.0 for x in o.theta]
                o.w.thetas = list(o.theta)
                vals.append(float(o.q.quantum_expectation_value(F)))
        vals = np.array(vals)
        # Hoeffding-type bound: every string is within [-1,1]
        w = sum(abs(c) for c in T.values())
        b = w * np.sqrt(2 * np.log(2e10) / (400 * s["reps"])) * 1.0
        m.true("unbiased_v2", abs(vals.mean() - exact(o, T)) <= b, mean=float(vals.mean()), exact=exact(o, T), bound=float(b), op=txt)


def run_var(s, m, rng):
    """Reported variances from exact distributions."""
    o = make(s, rng, None if s["readout"] else device.Device())
    q = o.q
    meas = device.Measured(o.enc, (o.na, o.na), o.device.readout[: o.enc.nq] if o.device.readout is not None else None)
    v = o.state(o.theta)
    for k in range(5):
        shots = [None, 1000][int(rng.integers(2))]
        F, T, txt = o.op(["random", "pair", "hopping", "random", "number"][k])
        m.case({"id": s["id"], "op": txt, "shots": shots, "excitations": o.pick})
        e = {key: meas.pauli(v, *key) for key in T}
        own = sum(c.real ** 2 * (1 - e[key] ** 2) for key, c in T.items()) / (shots or 1)
        unit = sum((1 - e[key] ** 2) for key, c in T.items()) / (shots or 1)
        with hist.quiet():
            q.shots = shots
            q.quantum_expectation_value(F)
            m.close("variance_exact", float(np.real(q.quantum_variance(F, do_no_corr=True))), own, TOL, op=txt)
            m.close("variance_exact", float(np.real(q.quantum_variance(F, do_cliques=False))), own, TOL, op=txt, ungrouped=True)
            m.close("variance_unit_coefficients", float(np.real(q.quantum_variance(F, do_cliques=False, no_coeffs=True))), unit, TOL, op=txt, ungrouped=True)
            m.close("variance_unit_coefficients", float(np.real(q.quantum_variance(F, do_no_corr=True, no_coeffs=True))), unit, TOL, op=txt)
            th = [float(x) for x in rng.uniform(-2, 2, len(o.theta))]
            v2 = o.state(th)
            own2 = sum(c.real ** 2 * (1 - meas.pauli(v2, *key) ** 2) for key, c in T.items()) / (shots or 1)
            m.close("variance_exact", float(np.real(q.quantum_variance(F, do_cliques=False, custom_parameters=th))), own2, TOL, op=txt, custom=True)
    # operators diagonal in the computational basis are measured in one basis: the variance is that of the whole operator
    for k in range(2):
        t = {}
        for p in range(2 * o.n):
            t[((p, True), (p, False))] = float(rng.normal())
            r = int(rng.integers(2 * o.n))
            if r != p:
                t[((p, True), (r, True), (r, False), (p, False))] = float(rng.normal())
        F = p19.fop(t)
        T = device.pauli_terms(o.enc.matrix(qmap.op(t.items(), o.n)), o.enc.nq)
        p = meas.distribution(v, 0, 0)
        x = sum(c.real * device.signs(z, o.enc.nq) for (_, z), c in T.items())
        x1 = sum(device.signs(z, o.enc.nq) for (_, z), c in T.items())
        with hist.quiet():
            q.shots = None
            q.quantum_expectation_value(F)
            m.close("variance_diagonal", float(np.real(q.quantum_variance(F))), float(p @ x ** 2 - (p @ x) ** 2), TOL, terms=len(T))
            m.close("variance_unit_coefficients", float(np.real(q.quantum_variance(F, no_coeffs=True))), float(p @ x1 ** 2 - (p @ x1) ** 2), TOL, terms=len(T), grouped=True)


def run_csf(s, m, rng):
    """Matrix elements between determinants with readout correction, for every way of composing the circuits."""
    o = make(s, rng)
    D = o.dets()
    for opt in (0, 1, 2, 3, 4):
        for f in ({"do_M_mitigation": True}, {"do_M_mitigation": True, "do_M_ansatz0": True, "do_M_ansatz0_plus": True}):
            if f.get("do_M_ansatz0") and opt not in (0, 3, 4):
                continue
            if s["isa"] and opt == 1:  # a free layout cannot be corrected with the matrix of the circuit's own layout: the interface refuses
                continue
            a, b = (D[int(i)] for i in rng.choice(len(D), 2, replace=False))
            F, T, txt = o.op("pair" if opt % 2 else "hopping")
            m.case({"id": s["id"], "option": opt, "flags": f, "dets": [a, b], "op": txt})
            va, vb = o.state(o.theta, a), o.state(o.theta, b)
            H = o.enc.matrix(qmap.op([(eval(k), c) for k, c in txt.items()], o.n))
            ref = float(va @ ((H + H.T) / 2 @ vb))
            with hist.quiet():
                o.q.update_mitigation_flags(do_M_mitigation=True, do_M_ansatz0=bool(f.get("do_M_ansatz0")), do_M_ansatz0_plus=bool(f.get("do_M_ansatz0_plus")))
                try:
                    got = float(o.q.quantum_expectation_value_csfs(([1.0], [a]), F, ([1.0], [b]), ISA_csfs_option=opt))
                except ValueError as e:
                    # routing of the superposition moved the measured qubits off the calibrated ones: refusing is right, guessing would not be
                    if s["isa"] and opt in (0, 2) and "ayout" in str(e):
                        m._ev("refused_uncalibrated_layout")
                        continue
                    raise
            m.close("superposition_corrected", got, ref, TOL, option=opt, flags=f, op=txt)


def run_order(s, m, rng):
    """A correction calibrated in one order of the physical qubits, applied to outcomes measured in another (cycles of any length)."""
    from slowquant.qiskit_interface import util
    for _ in range(s["n"]):
        nq = int(rng.integers(2, 6))
        phys = [int(x) for x in rng.choice(9, nq, replace=False)]
        conf = {q: np.array([[1 - e0, e1], [e0, 1 - e1]]) for q, e0, e1 in zip(phys, rng.uniform(0, 0.3, nq), rng.uniform(0, 0.3, nq))}
        ref = [phys[int(i)] for i in rng.permutation(nq)]
        new = [phys[int(i)] for i in rng.permutation(nq)]

        def mat(order):  # bit k of the outcome (least significant first) is read from physical qubit order[k]
            out = np.ones((1, 1))
            for q in order:
                out = np.kron(conf[q], out)
            return out
        p = rng.dirichlet(np.full(1 << nq, 0.4))
        seen = mat(new) @ p
        dist = {i: float(x) for i, x in enumerate(seen)}
        m.case({"calibrated": ref, "measured": new})
        for name, M in (("correct_distribution_with_layout_v2", np.linalg.inv(mat(ref))), ("correct_distribution_with_layout", mat(ref))):
            fn = getattr(util, name, None)
            if fn is None:
                continue
            with hist.quiet():
                got = fn(dict(dist), M.copy(), list(ref), list(new))
            m.close("reordered_correction", [got.get(i, 0.0) for i in range(1 << nq)], p, 1e-9, calibrated=ref, measured=new, of=name)
