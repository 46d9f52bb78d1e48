"""P05 fermionic operator algebra vs. own Jordan-Wigner matrices."""
import copy

import numpy as np

from lib import oracle as O

RULE = ("random second-quantised operators (random ladder strings of length 0..6 on 2..6 spin orbitals, repeated indices, "
        "normal-ordered or not, cancelling terms, number-conserving or not) combined by random operation sequences; a case is one "
        "operation with its operand strings, non-trivial when the operands are not both empty")
ASSUMPTIONS = ["Jordan-Wigner matrices built by the harness are the reference", "coefficients up to 1e3 in size; terms below 1e-13 may be dropped"]
REQUIRED = {"pool_history": 500, "matrix_of_result": 500, "operands_unchanged": 500, "terms_cancel": 50, "route_equality": 50, "small_terms_kept": 500, "inplace_target": 100}


def load():
    global FO, ops
    from slowquant.unitary_coupled_cluster import fermionic_operator as FO_
    from slowquant.unitary_coupled_cluster import operators as ops_
    FO, ops = FO_, ops_


def scenarios(tier, seed):
    n = 8 if tier == "quick" else 48
    out = [{"id": f"random-{i}", "kind": "random", "n": 250 if tier == "quick" else 1500} for i in range(n)]
    out += [{"id": f"conserving-{i}", "kind": "conserving", "n": 150 if tier == "quick" else 900} for i in range(n // 2)]
    out += [{"id": f"routes-{i}", "kind": "routes", "n": 80 if tier == "quick" else 500} for i in range(n // 2)]
    out += [{"id": f"pool-{i}", "kind": "pool", "n": 12 if tier == "quick" else 80} for i in range(n // 2)]
    out += [{"id": f"tiny-{i}", "kind": "tiny", "n": 40 if tier == "quick" else 300} for i in range(n // 2)]
    out += [{"id": "anticommutators", "kind": "car"}, {"id": "scalars", "kind": "scalars"}]
    return out


def mk(string_coeffs):
    return FO.FermionicOperator(dict(string_coeffs))


def rand_dict(rng, nso, maxlen, nterms, conserving=False):
    d = {}
    for _ in range(nterms):
        if conserving:
            k = int(rng.integers(0, maxlen // 2 + 1))
            dag = [True] * k + [False] * k
            rng.shuffle(dag)
        else:
            L = int(rng.integers(0, maxlen + 1))
            dag = [bool(x) for x in rng.integers(0, 2, size=L)]
        s = tuple((int(rng.integers(0, nso)), bool(x)) for x in dag)
        d[s] = float(np.round(rng.normal() * 10 ** rng.uniform(-1, 1), 6)) or 1.0
    return d


def as_product(d):
    """Build the operator of a dict through the public algebra (products of elementary ladder operators)."""
    out = mk({})
    for s, c in d.items():
        t = mk({(): 1.0})
        for p, dag in s:
            t = t * ops.a_op_spin(p, dag)
        out = out + c * t
    return out


LABELS: list = []


def M(op, nso):
    pos = {l: i for i, l in enumerate(LABELS or range(nso))}
    return O.op_matrix({tuple((pos[p], d) for p, d in k): c for k, c in op.operators.items()}, nso)


def dev(A, B):
    D = (A - B)
    return float(abs(D).max()) if D.nnz else 0.0


def normal_ordered(key):
    n = len(key)
    seen_ann = False
    for i in range(n):
        if key[i][1] and seen_ann:
            return False
        if not key[i][1]:
            seen_ann = True
    cre = [p for p, d in key if d]
    ann = [p for p, d in key if not d]
    return all(a > b for a, b in zip(cre, cre[1:])) and all(a > b for a, b in zip(ann, ann[1:]))


def same_op(m, name, A, B, tol, **ctx):
    keys = set(A.operators) | set(B.operators)
    bad = [k for k in keys if abs(A.operators.get(k, 0.0) - B.operators.get(k, 0.0)) > tol]
    return m.true(name, not bad, bad=str(bad[:3]), **ctx)


def run(s, m, rng):
    kind = s["kind"]
    if kind == "car":
        return car(m)
    if kind == "scalars":
        return scalars(m, rng)
    if kind == "routes":
        return routes(s, m, rng)
    if kind == "pool":
        return pool(s, m, rng)
    if kind == "tiny":
        return tiny(s, m, rng)
    for it in range(s["n"]):
        nso = int(rng.integers(2, 7))
        maxlen = 4 if it % 3 else 6
        da = rand_dict(rng, nso, maxlen, int(rng.integers(1, 5)), kind == "conserving")
        db = rand_dict(rng, nso, maxlen, int(rng.integers(1, 5)), kind == "conserving")
        if it % 2:  # sparse, large orbital labels (order preserving relabelling keeps the matrices small)
            labels = sorted(int(x) for x in rng.choice(40, size=nso, replace=False))
            da = {tuple((labels[p], d) for p, d in k): c for k, c in da.items()}
            db = {tuple((labels[p], d) for p, d in k): c for k, c in db.items()}
        else:
            labels = list(range(nso))
        LABELS[:] = labels
        A = as_product(da)
        B = as_product(db)
        MA0, MB0 = M(mk(da), nso), M(mk(db), nso)
        scale = 1 + abs(MA0).max() * abs(MB0).max() * 2**nso
        tol = 1e-10 * scale
        m.case({"op": "build", "a": str(da), "b": str(db)})
        m.true("matrix_of_result", dev(M(A, nso), MA0) < tol, op="build", a=str(da), dev=dev(M(A, nso), MA0))
        m.true("matrix_of_result", dev(M(B, nso), MB0) < tol, op="build", a=str(db), dev=dev(M(B, nso), MB0))
        m.true("normal_ordered_result", all(normal_ordered(k) for k in A.operators), a=str(A.operators))
        # raw (not normal-ordered) operands too
        for (X, Y, MX, MY, lab) in ((A, B, MA0, MB0, "nf"), (mk(da), mk(db), MA0, MB0, "raw")):
            ca, cb = copy.deepcopy(X.operators), copy.deepcopy(Y.operators)
            c = float(rng.choice([0.5, -1.0, 2.0, 3, -7.25, 1e-3]))
            results = {
                "add": (X + Y, MX + MY), "sub": (X - Y, MX - MY), "mul": (X * Y, MX @ MY),
                "rscale": (c * X, c * MX), "scale": (X * c, c * MX), "neg": (-X, -MX), "dagger": (X.dagger, MX.T),
                "comm": (ops.commutator(X, Y), MX @ MY - MY @ MX),
            }
            if it % 4 == 0 and len(X.operators) * len(Y.operators) < 60 and maxlen < 6:
                MC = MX + 2 * MY
                C = X + 2 * Y
                results["dcomm"] = (ops.double_commutator(X, Y, C), MX @ (MY @ MC - MC @ MY) - (MY @ MC - MC @ MY) @ MX)
            for name, (R, W) in results.items():
                m.case({"op": name, "lab": lab, "a": str(da), "b": str(db)}, bool(da or db))
                d = dev(M(R, nso), W)
                m.true("matrix_of_result", d < tol, op=name, lab=lab, dev=d, a=str(da)[:300], b=str(db)[:300])
                m.true("operands_unchanged", X.operators == ca and Y.operators == cb, op=name, lab=lab)
                if name in ("mul", "dagger", "comm", "dcomm"):
                    m.true("normal_ordered_result", all(normal_ordered(k) for k in R.operators), op=name)
            # fresh result objects do not alias operands
            R = X + Y
            R += X
            R -= 3 * Y
            R *= 2
            m.true("operands_unchanged", X.operators == ca and Y.operators == cb, op="alias-add", lab=lab)
            m.true("inplace_target", dev(M(R, nso), 2 * (2 * MX - 2 * MY)) < tol * 8, op="iadd-isub-imul", lab=lab)
            for f in ("neg", "dagger", "rscale", "scale", "sub"):
                R = {"neg": lambda: -X, "dagger": lambda: X.dagger, "rscale": lambda: 1.0 * X, "scale": lambda: X * 1.0, "sub": lambda: X - mk({})}[f]()
                R += Y
                m.true("operands_unchanged", X.operators == ca and Y.operators == cb, op=f"alias-{f}", lab=lab)
            Z = mk(dict(X.operators))
            Z *= Y
            m.true("inplace_target", dev(M(Z, nso), MX @ MY) < tol, op="imul-op", lab=lab)
            m.true("operands_unchanged", Y.operators == cb, op="imul-op")
            # cancellation
            T = X - X
            m.true("terms_cancel", len(T.operators) == 0, op="x-x")
            T = X + (-1) * X
            m.true("terms_cancel", len(T.operators) == 0, op="x+(-1)x")
            Z = mk(dict(X.operators))
            Z -= X
            m.true("terms_cancel", len(Z.operators) == 0, op="x-=x")
            Z = mk(dict(X.operators))
            Z += -X
            m.true("terms_cancel", len(Z.operators) == 0, op="x+=-x")
            if lab == "nf":
                T = ops.commutator(X, X)
                m.true("terms_cancel", all(abs(v) < tol for v in T.operators.values()), op="[x,x]")
        # self aliasing: A + A, A * A, A += A
        m.true("matrix_of_result", dev(M(A * A, nso), MA0 @ MA0) < tol * 10, op="A*A", a=str(da))
        m.true("matrix_of_result", dev(M(A + A, nso), 2 * MA0) < tol, op="A+A")
        # operator_count and readable form describe the terms
        cnt = {}
        for k in A.operators:
            cnt[len(k)] = cnt.get(len(k), 0) + 1
        m.true("counts", A.operator_count == cnt, a=str(da))
        m.true("counts", len(A.operators_readable) == len(A.operators) and sorted(A.operators_readable.values()) == sorted(A.operators.values()))


def car(m):
    LABELS[:] = []
    for nso in (2, 4, 5):
        for p in range(nso):
            for q in range(nso):
                for d1 in (False, True):
                    for d2 in (False, True):
                        a, b = ops.a_op_spin(p, d1), ops.a_op_spin(q, d2)
                        m.case({"car": [nso, p, q, d1, d2]})
                        r = a * b + b * a
                        want = {(): 1} if (p == q and d1 != d2) else {}
                        m.true("anticommutator", dict(r.operators) == want, got=str(r.operators), want=str(want))
                        m.true("matrix_of_result", dev(M(a * b, nso), O.string_matrix(((p, d1), (q, d2)), nso)) < 1e-12, op="pair", p=p, q=q)
        for p in range(nso):
            m.true("dagger_single", dict(ops.a_op_spin(p, False).dagger.operators) == {((p, True),): 1})
            m.true("dagger_single", dict(ops.a_op_spin(p, True).dagger.operators) == {((p, False),): 1})
    for p in range(4):
        for spin, off in (("alpha", 0), ("beta", 1)):
            for dag in (True, False):
                m.true("spin_index", ops.a_op(p, spin, dag).operators == ops.a_op_spin(2 * p + off, dag).operators)
    m.raises("bad_spin_rejected", ValueError, lambda: ops.a_op(0, "gamma", True))


def _ip(X, Y, sign):
    Z = mk(dict(X.operators))
    if sign > 0:
        Z += Y
    else:
        Z -= Y
    return Z


def scalars(m, rng):
    LABELS[:] = []
    # small but non-zero differences are kept with full relative accuracy, exact zeros go away
    for k in ((), ((3, True),), ((5, True), (2, False)), ((11, True), (4, True), (7, False), (1, False))):
        for eps in (1e-3, 1e-6, 1e-9, 1e-12):
            X, Y = mk({k: 1.0}), mk({k: 1.0 - eps})
            m.case({"small": [str(k), eps]})
            for nm, R in (("sub", X - Y), ("add", X + (-Y)), ("isub", _ip(X, Y, -1)), ("iadd", _ip(X, -Y, 1))):
                m.true("small_terms_kept", set(R.operators) == {k} and abs(R.operators[k] - eps) < 1e-15, op=nm, eps=eps, got=str(R.operators))
            R = mk({k: eps}) * mk({(): 1.0})
            m.true("small_terms_kept", abs(dict(R.operators).get(k, 0) - eps) < 1e-18, op="mul", eps=eps)
    nso = 4
    d = rand_dict(rng, nso, 4, 4)
    A = as_product(d)
    MA = O.op_matrix(d, nso)
    for c in (2, 2.5, -1, 0.1):
        m.case({"scalar": str(c)})
        m.true("matrix_of_result", dev(M(c * A, nso), c * MA) < 1e-9, op="rmul", c=str(c))
        m.true("matrix_of_result", dev(M(A * c, nso), c * MA) < 1e-9, op="mul", c=str(c))
        B = mk(dict(A.operators))
        B *= c
        m.true("inplace_target", dev(M(B, nso), c * MA) < 1e-9, op="imul", c=str(c))
    for c in (np.float64(0.3), np.int64(3)):
        m.case({"scalar": repr(c)})
        m.true("matrix_of_result", dev(M(c * A, nso), float(c) * MA) < 1e-9, op="rmul-np", c=repr(c))
    I = mk({(): 1.0})
    m.true("identity", (I * A).operators == A.operators and (A * I).operators == A.operators)
    Z = mk({})
    m.true("zero", len((Z * A).operators) == 0 and len((A * Z).operators) == 0 and (A + Z).operators == A.operators)


def tiny(s, m, rng):
    """Operators with very small and very different coefficients: results are compared term by term with what the unscaled algebra gives."""
    LABELS[:] = []
    for it in range(s["n"]):
        nso = int(rng.integers(2, 6))
        da, db = rand_dict(rng, nso, 4, int(rng.integers(1, 4))), rand_dict(rng, nso, 4, int(rng.integers(1, 4)))
        A, B = as_product(da), as_product(db)
        fa, fb = (float(10 ** rng.uniform(-6, -1)) for _ in range(2))
        tol = 2e-13 * (4 + len(A.operators) * len(B.operators))
        m.case({"tiny": [fa, fb], "a": str(da), "b": str(db)})
        X, Y = mk({k: v * fa for k, v in A.operators.items()}), mk({k: v * fb for k, v in B.operators.items()})
        Z = mk(dict(X.operators))
        Z *= Y
        W = mk(dict(X.operators))
        W += fb * X
        for nm, got, ref in (("mul", X * Y, (fa * fb) * (A * B)), ("imul", Z, (fa * fb) * (A * B)), ("comm", ops.commutator(X, Y), (fa * fb) * ops.commutator(A, B)),
                             ("dagger", X.dagger, fa * A.dagger), ("scale", X * fb, (fa * fb) * A), ("iadd", W, (fa * (1 + fb)) * A),
                             ("unit", (fa * A) * mk({(): 1.0}), fa * A), ("spread", (A + X) * (B - Y), A * B + X * B - A * Y - X * Y)):
            t = tol if nm != "spread" else 1e-12 * (4 + sum(abs(v) for v in A.operators.values()) * sum(abs(v) for v in B.operators.values()))
            same_op(m, "small_terms_kept", got, ref, t, op=nm, fa=fa, fb=fb, a=str(da), b=str(db))
        # strings that are not normal-ordered and repeat an index: one string, several equal terms
        for _k in range(4):
            raw = rand_dict(rng, int(rng.integers(1, 4)), 6, int(rng.integers(2, 8)))
            P, Q = mk(raw), mk({k: v * fa for k, v in raw.items()})
            I = mk({(): 1.0})
            t = 2e-14 * 64 * (1 + fa * sum(abs(v) for v in raw.values()))
            for nm, got, ref in (("raw-mul", Q * I, fa * (P * I)), ("raw-dagger", Q.dagger, fa * P.dagger), ("raw-lmul", I * Q, fa * (I * P))):
                same_op(m, "small_terms_kept", got, ref, t, op=nm, fa=fa, a=str(raw))
        # mutually cancelling contributions of one product whose remainder is small
        eps = float(10 ** rng.uniform(-11, -2))
        p, q = (int(v) for v in rng.choice(nso, 2, replace=False))
        L = mk({((p, True), (q, False)): 1.0, (): 1.0})
        R = mk({(): 1.0, ((p, True), (q, False)): -1.0 + eps})
        same_op(m, "small_terms_kept", L * R, mk({(): 1.0, ((p, True), (q, False)): eps}), 1e-15, op="cancelling-product", eps=eps)
        Z = mk(dict(L.operators))
        Z *= R
        same_op(m, "small_terms_kept", Z, mk({(): 1.0, ((p, True), (q, False)): eps}), 1e-15, op="cancelling-imul", eps=eps)


def routes(s, m, rng):
    LABELS[:] = []
    for it in range(s["n"]):
        nso = int(rng.integers(3, 7))
        ds = [rand_dict(rng, nso, 3, int(rng.integers(1, 4))) for _ in range(3)]
        A, B, C = (as_product(d) for d in ds)
        tol = 1e-9 * (1 + np.prod([max(map(abs, d.values())) * len(d) for d in ds])) * 10
        m.case({"routes": [str(d) for d in ds]})
        same_op(m, "route_equality", (A * B) * C, A * (B * C), tol, op="assoc", d=str(ds))
        same_op(m, "route_equality", A * (B + C), A * B + A * C, tol, op="distrib-l", d=str(ds))
        same_op(m, "route_equality", (A + B) * C, A * C + B * C, tol, op="distrib-r", d=str(ds))
        same_op(m, "route_equality", (A * B).dagger, B.dagger * A.dagger, tol, op="dagger", d=str(ds))
        same_op(m, "route_equality", A.dagger.dagger, A, tol, op="dagger2", d=str(ds))
        same_op(m, "route_equality", A + B - B, A, tol, op="add-sub")
        same_op(m, "route_equality", ops.commutator(A, B), -ops.commutator(B, A), tol, op="comm-anti")
        J = ops.commutator(A, ops.commutator(B, C)) + ops.commutator(B, ops.commutator(C, A)) + ops.commutator(C, ops.commutator(A, B))
        m.true("route_equality", all(abs(v) < tol for v in J.operators.values()), op="jacobi", d=str(ds))
        same_op(m, "route_equality", ops.double_commutator(A, B, C), ops.commutator(A, ops.commutator(B, C)), tol, op="dcomm", d=str(ds))
        # [A,H,B] symmetrised = 1/2([A,[H,B]] + [[A,H],B])
        sym = 0.5 * (ops.commutator(A, ops.commutator(B, C)) + ops.commutator(ops.commutator(A, B), C))
        same_op(m, "route_equality", ops.double_commutator(A, B, C, do_symmetrized=True), sym, tol, op="dcomm-sym", d=str(ds))


def pool(s, m, rng):
    """Histories over a pool of operators that may share structure: after every step each member still represents what it did, the target what it should."""
    for it in range(s["n"]):
        nso = int(rng.integers(2, 5))
        LABELS[:] = list(range(nso))
        ops_ = [mk(rand_dict(rng, nso, 3, int(rng.integers(0, 4)), bool(rng.integers(2)))) for _ in range(3)] + [mk({})]
        ops_ = [as_product(dict(o.operators)) if o.operators else o for o in ops_]
        mats = [M(o, nso) for o in ops_]
        log = []
        for step in range(25):
            f = str(rng.choice(["iadd", "isub", "imul", "iscale", "add", "sub", "mul", "neg", "dagger", "scale", "empty", "comm"]))
            i, j = (int(v) for v in rng.integers(0, len(ops_), 2))
            c = float(rng.choice([0.5, -1.0, 2.0, 0.0, 1.0]))
            if f in ("mul", "imul", "comm") and (len(ops_[i].operators) * len(ops_[j].operators) > 400 or abs(mats[i]).max() * abs(mats[j]).max() > 1e6):
                continue
            log.append([f, i, j, c] if f in ("iscale", "scale") else [f, i, j])
            m.case({"pool": it, "log": log})
            tgt, new = None, None
            if f == "iadd":
                X = ops_[i]
                X += ops_[j]
                tgt, new = (i, X), mats[i] + mats[j]
            elif f == "isub":
                X = ops_[i]
                X -= ops_[j]
                tgt, new = (i, X), mats[i] - mats[j]
            elif f == "imul":
                X = ops_[i]
                X *= ops_[j]
                tgt, new = (i, X), mats[i] @ mats[j]
            elif f == "iscale":
                X = ops_[i]
                X *= c
                tgt, new = (i, X), c * mats[i]
            else:
                R, W = {"add": lambda: (ops_[i] + ops_[j], mats[i] + mats[j]), "sub": lambda: (ops_[i] - ops_[j], mats[i] - mats[j]), "mul": lambda: (ops_[i] * ops_[j], mats[i] @ mats[j]),
                        "neg": lambda: (-ops_[i], -mats[i]), "dagger": lambda: (ops_[i].dagger, mats[i].T), "scale": lambda: ((c * ops_[i]) if step % 2 else (ops_[i] * c), c * mats[i]),
                        "empty": lambda: (mk({}), 0 * mats[i]), "comm": lambda: (ops.commutator(ops_[i], ops_[j]), mats[i] @ mats[j] - mats[j] @ mats[i])}[f]()
                k = int(rng.integers(0, len(ops_))) if len(ops_) > 6 else len(ops_)
                if k == len(ops_):
                    ops_.append(R)
                    mats.append(W)
                else:
                    ops_[k], mats[k] = R, W
            if tgt is not None:
                ops_[tgt[0]], mats[tgt[0]] = tgt[1], new
            for k, (o, w) in enumerate(zip(ops_, mats)):
                d = dev(M(o, nso), w)
                if not m.true("pool_history", d < 1e-9 * (1 + abs(w).max()), log=log, member=k, dev=d):
                    return
