"""P08 applying operators to states: serial, threaded, batched, folded, extended; also under Numba bounds checking."""
import json
import os
import subprocess
import sys

import numpy as np

from lib import oracle as O

RULE = ("random determinant spaces (plain and extended, unequal alpha/beta), random number/spin conserving operator lists (1..3 operators of 1..3 "
        "excitations, single-, two- and three-electron strings, identity, diagonal terms), random states and batches, thread counts 1/2/3/4; a case "
        "is one (space, operator list, state), non-trivial when the resulting vector is non-zero")
ASSUMPTIONS = ["operators are in the normal-ordered form produced by the operator algebra", "thread counts up to the 4 the sandbox pool is set to"]
REQUIRED = {"apply": 150, "apply_threaded": 100, "apply_batch": 100, "operator_matrix": 100, "expectation": 150, "input_unchanged": 300,
            "extended": 60, "linearity": 300, "folded": 60, "boundscheck_child": 1}
SCENARIO_TIMEOUT = 600


def load():
    global osa, cs, ops, FO, nb
    import numba as nb_
    from slowquant.unitary_coupled_cluster import ci_spaces as cs_
    from slowquant.unitary_coupled_cluster import fermionic_operator as FO_
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa_
    from slowquant.unitary_coupled_cluster import operators as ops_
    osa, cs, ops, FO, nb = osa_, cs_, ops_, FO_, nb_


def warm():
    ci = cs.get_indexing(0, 2, 0, 1, 1)
    st = np.ones(4) / 2
    op = ops.Epq(0, 1)
    for k in (1, 2):
        nb.set_num_threads(k)
        osa.propagate_state([op], st, ci)
        osa.propagate_state_SA([op], np.array([st, st]), ci)
        osa.build_operator_matrix(op, ci)
    nb.set_num_threads(1)


def scenarios(tier, seed):
    out = [{"id": "boundscheck", "kind": "bc", "n": 10 if tier == "quick" else 60}]
    k = 1 if tier == "quick" else 8
    for i in range(6 * k):
        out.append({"id": f"plain-{i}", "kind": "plain", "n": 25})
    for i in range(3 * k):
        out.append({"id": f"ext-{i}", "kind": "ext", "n": 14})
    for i in range(3 * k):
        out.append({"id": f"fold-{i}", "kind": "fold", "n": 25})
    for i in range(3 * k):
        out.append({"id": f"threads-{i}", "kind": "threads", "n": 3})
    for i in range(2 * k):
        out.append({"id": f"scaled-{i}", "kind": "scaled", "n": 40})
    out.append({"id": "hf-expansion", "kind": "hf", "n": 150 * k})
    return out


def rand_op(rng, norb, off, terms=None):
    """Random number- and Sz-conserving operator on orbitals off..off+norb built through the algebra."""
    op = FO.FermionicOperator({})
    for _ in range(terms or int(rng.integers(1, 5))):
        t = FO.FermionicOperator({(): 1.0})
        for _k in range(int(rng.integers(0, 4))):
            kind = rng.integers(0, 4)
            p, q = (int(x) + off for x in rng.integers(0, norb, 2))
            sg = int(rng.integers(0, 2))
            if kind == 0:
                t = t * ops.Epq(p, q)
            elif kind == 1 and norb >= 2:
                i, j = (2 * (int(x) + off) for x in rng.integers(0, norb, 2))
                a, b = (2 * (int(x) + off) for x in rng.integers(0, norb, 2))
                t = t * ops.G2(i, j + 1, a, b + 1)
            else:
                t = t * (ops.a_op_spin(2 * p + sg, True) * ops.a_op_spin(2 * q + sg, False))
        op = op + float(np.round(rng.normal(), 4)) * t
    return op


def shift(opd, off):
    return {tuple((p - 2 * off, d) for p, d in k): c for k, c in opd.items()}


def threads(k):
    nb.set_num_threads(k)


def run(s, m, rng):
    try:
        globals()["run_" + s["kind"]](s, m, rng)
    finally:
        threads(1)


def space(rng, amax=5, dim_max=400):
    while True:
        a = int(rng.integers(1, amax + 1))
        na, nb_ = (int(x) for x in rng.integers(0, a + 1, 2))
        d = O.sector(a, na, nb_)
        if 0 < len(d) <= dim_max and (len(d) > 1 or rng.random() < 0.1):
            return a, na, nb_


def check_all(m, rng, oplist, ci, sec, mats, label, do_folding, unsafe, cfg):
    """Compare every way of applying oplist with the reference matrices `mats` (leftmost operator acts last)."""
    dim = sec.dim
    st = rng.normal(size=dim)
    st /= np.linalg.norm(st)
    if rng.random() < 0.2:
        st = np.zeros(dim)
        st[int(rng.integers(0, dim))] = 1.0
    bra = rng.normal(size=dim)
    want = st
    for A in mats[::-1]:
        want = A @ want
    nst = int(rng.integers(1, 4))
    batch = rng.normal(size=(nst, dim))
    bwant = batch
    for A in mats[::-1]:
        bwant = (A @ bwant.T).T
    brab = rng.normal(size=(nst, dim))
    scale = 1 + np.abs(want).max() + np.abs(bwant).max()
    tol = 1e-10 * scale
    m.case({"space": cfg, "ops": [str(o.operators)[:200] for o in oplist], "label": label}, bool(np.any(want)))
    kw = {"do_folding": do_folding, "do_unsafe": unsafe}
    ref_ops = [dict(o.operators) for o in oplist]
    for nt in (1, int(rng.integers(2, 5))):
        threads(nt)
        s0, b0 = st.copy(), batch.copy()
        got = osa.propagate_state(list(oplist), s0, ci, **kw)
        name = "apply" if nt == 1 else "apply_threaded"
        m.close(name, got, want, tol, cfg=cfg, label=label, threads=nt)
        if label != "plain":
            m.close(label, got, want, tol, cfg=cfg, threads=nt)
        gotb = osa.propagate_state_SA(list(oplist), b0, ci, **kw)
        m.close("apply_batch", gotb, bwant, tol, cfg=cfg, label=label, threads=nt)
        m.true("input_unchanged", np.array_equal(s0, st) and np.array_equal(b0, batch), cfg=cfg, threads=nt)
        m.true("fresh_output", not np.shares_memory(got, s0) and not np.shares_memory(gotb, b0), cfg=cfg)
        v = osa.expectation_value(bra, list(oplist), s0, ci, **kw)
        m.close("expectation", v, float(bra @ want), 1e-9 * scale * dim, cfg=cfg, label=label, threads=nt)
        if not unsafe:
            v = osa.expectation_value_SA(brab, list(oplist), b0, ci, do_folding=do_folding)
            m.close("expectation", v, float(np.sum(brab * bwant) / nst), 1e-9 * scale * dim, cfg=cfg, label=label + "-batch", threads=nt)
        m.true("input_unchanged", np.array_equal(s0, st) and np.array_equal(b0, batch), cfg=cfg, threads=nt)
    m.true("operators_unchanged", all(o.operators == r for o, r in zip(oplist, ref_ops)), cfg=cfg)
    threads(1)
    empty = osa.propagate_state([], st, ci)
    m.true("empty_list_copies", np.array_equal(empty, st) and not np.shares_memory(empty, st))
    empty = osa.propagate_state_SA([], batch, ci)
    m.true("empty_list_copies", np.array_equal(empty, batch) and not np.shares_memory(empty, batch))


def run_plain(s, m, rng):
    for _ in range(s["n"]):
        a, na, nb_ = space(rng)
        off = int(rng.integers(0, 3))
        ci = cs.get_indexing(off, a, int(rng.integers(0, 3)), na, nb_)
        sec = O.Sector(a, na, nb_, ci.idx2det)
        k = int(rng.integers(1, 4))
        act = [rand_op(rng, a, 0) for _ in range(k)]
        mats = [sec.op(o.operators) for o in act]
        cfg = [off, a, na, nb_]
        check_all(m, rng, act, ci, sec, mats, "plain", False, False, cfg)
        m.close("operator_matrix", osa.build_operator_matrix(act[0], ci), mats[0].toarray(), 1e-10, cfg=cfg)
        # the same operators expressed on full-space indices: folding gives the active ones
        shifted = [FO.FermionicOperator({tuple((p + 2 * off, d) for p, d in key): c for key, c in o.operators.items()}) for o in act]
        check_all(m, rng, shifted, ci, sec, mats, "plain", True, False, cfg)


def run_scaled(s, m, rng):
    """The action is linear: very small amplitudes count, and batch members with unrelated sparse supports do not see each other."""
    for _ in range(s["n"]):
        a, na, nb_ = space(rng, 5, 300)
        ci = cs.get_indexing(0, a, 0, na, nb_)
        sec = O.Sector(a, na, nb_, ci.idx2det)
        op = rand_op(rng, a, 0)
        A = sec.op(op.operators)
        nrm = 1 + float(abs(A).sum(axis=1).max())
        # terms which cancel against each other leave their rounding behind: the bound is taken term by term
        mag = sum((abs(sec.op({k: v})) for k, v in op.operators.items()), 0 * abs(A))
        f = float(10 ** rng.uniform(-14, -4))
        st = rng.normal(size=sec.dim)
        mixed = st * 10.0 ** rng.uniform(-12, 0, size=sec.dim)
        nst = int(rng.integers(2, 5))
        batch = np.zeros((nst, sec.dim))
        for i, j in enumerate(rng.permutation(sec.dim)):
            if rng.random() < 0.6:
                batch[i % nst, j] = rng.normal() * 10 ** rng.uniform(-9, 0)
        cfg = [a, na, nb_]
        for nt in (1, 2):
            threads(nt)
            m.case({"scaled": cfg, "f": f, "op": str(op.operators)[:200], "threads": nt}, bool(np.any(A @ st)))
            m.close("linearity", osa.propagate_state([op], f * st, ci, do_folding=False) / f, A @ st, 1e-11 * nrm * 5, cfg=cfg, f=f, threads=nt)
            got = osa.propagate_state([op], mixed, ci, do_folding=False)
            m.true("linearity", np.all(np.abs(got - A @ mixed) <= 1e-13 * (mag @ np.abs(mixed)) + 1e-24), cfg=cfg, mixed=True, threads=nt)
            got = osa.propagate_state_SA([op], batch, ci, do_folding=False)
            want, bound = (A @ batch.T).T, (mag @ np.abs(batch).T).T
            m.true("linearity", np.all(np.abs(got - want) <= 1e-13 * bound + 1e-24), cfg=cfg, batch=True, threads=nt)
        threads(1)


def run_fold(s, m, rng):
    for _ in range(s["n"]):
        a, na, nb_ = space(rng, 4, 100)
        ni, nv = int(rng.integers(0, 3)), int(rng.integers(0, 2))
        n = ni + a + nv
        ci = cs.get_indexing(ni, a, nv, na, nb_)
        sec = O.Sector(a, na, nb_, ci.idx2det)
        full = O.Sector(n, na + ni, nb_ + ni)
        op = rand_op(rng, n, 0)
        head = (1 << (2 * ni)) - 1
        emb = [full.index[(head << (2 * (a + nv))) | (int(d) << (2 * nv))] for d in ci.idx2det]
        mat = full.op(op.operators)[emb][:, emb]
        check_all(m, rng, [op], ci, sec, [mat], "folded", True, False, [ni, a, nv, na, nb_])


def run_ext(s, m, rng):
    for _ in range(s["n"]):
        while True:
            ni, nv = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            a = int(rng.integers(1, 4))
            na, nb_ = (int(x) for x in rng.integers(0, a + 1, 2))
            if ni + nv > 0 and ni + a + nv <= 5:
                break
        n = ni + a + nv
        order = int(rng.integers(1, 3))
        ci = cs.get_indexing_extended(ni, a, nv, na, nb_, order)
        sec = O.Sector(n, na + ni, nb_ + ni, ci.idx2det)
        if sec.dim > 300:
            continue
        oplist = [rand_op(rng, n, 0) for _ in range(int(rng.integers(1, 3)))]
        mats = [sec.op(o.operators) for o in oplist]
        cfg = [ni, a, nv, na, nb_, order]
        check_all(m, rng, oplist, ci, sec, mats, "extended", False, True, cfg)
        m.close("operator_matrix", osa.build_operator_matrix(oplist[0], ci, do_unsafe=True), mats[0].toarray(), 1e-10, cfg=cfg)


def run_threads(s, m, rng):
    """Larger spaces, all thread counts, repeated: results are identical to the serial kernel and to the reference."""
    for a, na, nb_ in ((6, 3, 3), (6, 2, 4), (7, 3, 3)):
        ci = cs.get_indexing(1, a, 1, na, nb_)
        sec = O.Sector(a, na, nb_, ci.idx2det)
        oplist = [rand_op(rng, a, 0, 6) for _ in range(2)]
        mats = [sec.op(o.operators) for o in oplist]
        st = rng.normal(size=sec.dim)
        batch = rng.normal(size=(3, sec.dim))
        want = mats[0] @ (mats[1] @ st)
        bw = (mats[0] @ (mats[1] @ batch.T)).T
        tol = 1e-10 * (1 + np.abs(want).max() + np.abs(bw).max())
        for nt in (1, 2, 3, 4):
            for rep in range(s["n"]):
                threads(nt)
                m.case({"threads": nt, "space": [a, na, nb_], "op": str(oplist[0].operators)[:80], "rep": rep})
                m.close("apply_threaded" if nt > 1 else "apply", osa.propagate_state(oplist, st, ci, do_folding=False), want, tol, threads=nt)
                m.close("apply_batch", osa.propagate_state_SA(oplist, batch, ci, do_folding=False), bw, tol, threads=nt)
        threads(1)


def run_hf(s, m, rng):
    for _ in range(s["n"]):
        a, na, nb_ = space(rng, 4, 100)
        op = rand_op(rng, a, 0)
        coeffs, dets = osa.get_determinant_expansion_from_operator_on_HF(op, a, na, nb_)
        sec = O.Sector(a, na, nb_)
        hf = int("".join(("1" if p < na else "0") + ("1" if p < nb_ else "0") for p in range(a)), 2)
        e = np.zeros(sec.dim)
        e[sec.index[hf]] = 1.0
        want = sec.op(op.operators) @ e
        got = np.zeros(sec.dim)
        for c, d in zip(coeffs, dets):
            got[sec.index[int(d, 2)]] += c
        m.case({"hf": [a, na, nb_], "op": str(op.operators)[:200]}, bool(np.any(want)))
        m.close("hf_expansion", got, want, 1e-10, cfg=[a, na, nb_])
        m.true("hf_expansion", all(len(d) == 2 * a for d in dets))


def run_bc(s, m, rng):
    """Same workloads in a child whose Numba kernels are compiled with array bounds checking (a sanitizer build)."""
    env = dict(os.environ)
    env["NUMBA_BOUNDSCHECK"] = "1"
    env["NUMBA_CACHE_DIR"] = os.path.join(os.environ["VERIF_SCRATCH"], "nb_bc")
    os.makedirs(env["NUMBA_CACHE_DIR"], exist_ok=True)
    kinds = [{"id": f"bc-{k}", "kind": k, "n": s["n"]} for k in ("plain", "ext", "fold")] + [{"id": "bc-threads", "kind": "threads", "n": 1}]
    inp = "".join(json.dumps({"run": k}) + "\n" for k in kinds)
    p = subprocess.run([sys.executable, "-m", "lib.worker", "P08", "quick", str(int(rng.integers(0, 2**31)))], input=inp, env=env,
                       capture_output=True, text=True, timeout=550, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    got = [json.loads(line.split("@@VERIF@@", 1)[1]) for line in p.stdout.splitlines() if "@@VERIF@@" in line]
    for r in got:
        if "events" not in r:
            continue
        for k, v in r["events"].items():
            m.events["bc:" + k] = m.events.get("bc:" + k, 0) + v
        m.violations.extend({**v, "monitor": "boundscheck:" + v["monitor"]} for v in r["violations"])
        m.ncases += r["ncases"]
        m.cases.update("bc" + c for c in r["cases"])
        if r.get("harness_error"):
            from lib.mon import HarnessError
            raise HarnessError(r["harness_error"])
    m.true("boundscheck_child", len(got) == len(kinds) and p.returncode == 0, rc=p.returncode, tail=p.stdout[-500:] + p.stderr[-500:])
