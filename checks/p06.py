"""P06 Hamiltonians, one-electron operators, folding and elementary excitation operators vs. own matrices."""
import itertools

import numpy as np

from lib import oracle as O

RULE = ("random integrals (8-fold symmetric; dense, sparse or with tiny entries) and random number-conserving operators over every split of "
        "2..5 spatial orbitals into inactive/active/virtual; elementary excitation operators over all/random index tuples; a case is one "
        "(operator kind, split, integrals or index tuple), non-trivial when its reference matrix is non-zero")
ASSUMPTIONS = ["real integrals with full permutation symmetry", "folding is specified for particle-number conserving operators"]
REQUIRED = {"matrix_elements": 60, "hermitian": 60, "folding": 200, "folding_deep": 40, "elementary": 300}


def load():
    global ops, FO
    from slowquant.unitary_coupled_cluster import fermionic_operator as FO_
    from slowquant.unitary_coupled_cluster import operators as ops_
    FO, ops = FO_, ops_


SPLITS = [(i, a, v) for n in (2, 3, 4) for i in range(0, 4) for a in range(0, 5) for v in range(0, 4) if i + a + v == n and (a > 0 or i > 0)]
SPLITS5 = [(1, 2, 2), (2, 2, 1), (1, 3, 1), (2, 1, 2), (3, 1, 1), (1, 1, 3)]


def scenarios(tier, seed):
    out = []
    rep = 3 if tier == "quick" else 12
    for r in range(rep):
        for sp in SPLITS:
            if sum(sp) == 4 and tier == "quick" and sp[1] == 0:
                continue
            out.append({"id": f"ham-{sp}-{r}", "kind": "ham", "split": list(sp), "mode": ["dense", "sparse", "tiny"][(sum(sp) * 7 + sp[0] + r) % 3]})
        for sp in (SPLITS5[:4] if tier == "quick" else SPLITS5):
            out.append({"id": f"ham-{sp}-{r}", "kind": "ham", "split": list(sp), "mode": ["dense", "sparse"][r % 2]})
        for i in range(8):
            out.append({"id": f"fold-{i}-{r}", "kind": "fold", "n": 60 if tier == "quick" else 150})
        for i in range(4):
            out.append({"id": f"foldstr-{i}-{r}", "kind": "foldstr", "n": 40 if tier == "quick" else 150})
        out.append({"id": f"elem-spin-{r}", "kind": "elem_spin", "n": 150 if tier == "quick" else 600})
        out.append({"id": f"elem-sa-{r}", "kind": "elem_sa"})
        out.append({"id": f"elem-E-{r}", "kind": "elem_E"})
    out.sort(key=lambda s: -sum(s.get("split", [0])))
    return out


def fock_H(h, g, n):
    nso = 2 * n
    E = [[O.fock_E(p, q, nso) for q in range(n)] for p in range(n)]
    H = 0 * E[0][0]
    for p in range(n):
        for q in range(n):
            H = H + (h[p, q] - 0.5 * np.einsum("rr->", g[p, :, :, q])) * E[p][q]
            X = 0 * E[0][0]
            for r in range(n):
                for s in range(n):
                    X = X + g[p, q, r, s] * E[r][s]
            H = H + 0.5 * E[p][q] @ X
    return H.tocsr()


def fock_one(h, n):
    H = 0 * O.fock_E(0, 0, 2 * n)
    for p in range(n):
        for q in range(n):
            H = H + h[p, q] * O.fock_E(p, q, 2 * n)
    return H.tocsr()


def classes(n, ni, na):
    """number of inactive holes and virtual particles of every Fock-space determinant."""
    nso = 2 * n
    idx = np.arange(2**nso)
    holes = np.zeros(len(idx), int)
    parts = np.zeros(len(idx), int)
    for p in range(nso):
        occ = (idx >> (nso - 1 - p)) & 1
        if p < 2 * ni:
            holes += 1 - occ
        elif p >= 2 * (ni + na):
            parts += occ
    return holes, parts


def cmp_block(m, name, got, want, rows, cols, tol, **ctx):
    d = (got - want)[rows][:, cols]
    dev = float(abs(d).max()) if d.nnz else 0.0
    m.true(name, dev < tol, dev=dev, **ctx)
    m.maxdev[name] = max(m.maxdev.get(name, 0.0), dev)


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def run_ham(s, m, rng):
    ni, na, nv = s["split"]
    n = ni + na + nv
    h, g = O.random_integrals(rng, n)
    if s["mode"] == "sparse":
        mask = rng.random((n, n)) < 0.5
        h = h * (mask | mask.T)
        z = rng.random((n,) * 4) < 0.15
        for perm in ((0, 1, 2, 3), (1, 0, 2, 3), (0, 1, 3, 2), (1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 0, 1), (2, 3, 1, 0), (3, 2, 1, 0)):
            g = np.where(z.transpose(perm), 0.0, g)
    if s["mode"] == "tiny":
        h = h * 1e-6
        g = g * 1e-7
    tol = 1e-10 * (1 if s["mode"] != "tiny" else 1e-4)
    nso = 2 * n
    H = fock_H(h, g, n)
    holes, parts = classes(n, ni, na)
    cas = np.nonzero((holes == 0) & (parts == 0))[0]
    X1 = np.nonzero((holes <= 1) & (parts <= 1))[0]
    X2 = np.nonzero((holes <= 2) & (parts <= 2))[0]
    every = np.arange(2**nso)
    m.case({"ham": s["split"], "mode": s["mode"], "h00": h[0, 0]}, H.nnz > 0)

    def M(op):
        return O.op_matrix(op.operators, nso)

    todo = [("full", M(ops.hamiltonian_full_space(h, g, n)), H, [(every, every)])] if n <= 4 else []
    todo.append(("0i0a", M(ops.hamiltonian_0i_0a(h, g, ni, na)), H, [(cas, cas)]))
    todo.append(("1i1a", M(ops.hamiltonian_1i_1a(h, g, ni, na, nv)), H, [(cas, X1), (X1, cas)]))
    todo.append(("2i2a", M(ops.hamiltonian_2i_2a(h, g, ni, na, nv)), H, [(X1, X1), (cas, X2), (X2, cas)]))
    for name, got, want, blocks in todo:
        for rr, cc in blocks:
            cmp_block(m, "matrix_elements", got, want, rr, cc, tol, op=name, split=s["split"])
        d = got - got.T
        m.true("hermitian", (float(abs(d).max()) if d.nnz else 0.0) < tol, op=name, split=s["split"])
    # one-electron operators (also non-symmetric integrals)
    for sym in (True, False):
        o = rng.normal(size=(n, n))
        if sym:
            o = o + o.T
        Of = fock_one(o, n)
        for name, got, blocks in (("one_full", M(ops.one_elec_op_full_space(o, n)), [(every, every)]),
                                  ("one_0i0a", M(ops.one_elec_op_0i_0a(o, ni, na)), [(cas, cas)]),
                                  ("one_1i1a", M(ops.one_elec_op_1i_1a(o, ni, na, nv)), [(cas, X1), (X1, cas)])):
            m.case({"one": name, "split": s["split"], "o": o[0, 0]})
            for rr, cc in blocks:
                cmp_block(m, "matrix_elements", got, Of, rr, cc, 1e-10, op=name, split=s["split"])
            if sym:
                d = got - got.T
                m.true("hermitian", (float(abs(d).max()) if d.nnz else 0.0) < 1e-10, op=name, split=s["split"])
    # folding of every Hamiltonian keeps the active-space block
    act = active_block(cas, n, ni, na, nv)
    for name, op in (("0i0a", ops.hamiltonian_0i_0a(h, g, ni, na)), ("1i1a", ops.hamiltonian_1i_1a(h, g, ni, na, nv))):
        if na == 0:
            continue
        F = O.op_matrix(op.get_folded_operator(ni, na, nv).operators, 2 * na)
        W = H[cas][:, cas]
        d = F[act][:, act] - W
        m.true("folding", (float(abs(d).max()) if d.nnz else 0.0) < tol, op=name, split=s["split"])


def active_block(cas, n, ni, na, nv):
    """Index in the active Fock space of each full CAS determinant."""
    return [(int(d) >> (2 * nv)) & ((1 << (2 * na)) - 1) for d in cas]


def run_fold(s, m, rng):
    for _ in range(s["n"]):
        n = int(rng.integers(2, 5))
        ni = int(rng.integers(0, n))
        na = int(rng.integers(1, n - ni + 1))
        nv = n - ni - na
        nso = 2 * n
        # product of random number-conserving pieces
        op = FO.FermionicOperator({(): 1.0})
        Mx = O.string_matrix((), nso)
        desc = []
        for _k in range(int(rng.integers(1, 4))):
            kind = rng.choice(["E", "spin", "sum", "flip"])
            if kind == "E":
                p, q = (int(x) for x in rng.integers(0, n, 2))
                t = ops.Epq(p, q)
            elif kind == "spin":
                p, q = (int(x) for x in rng.integers(0, n, 2))
                sg = int(rng.integers(0, 2))
                t = ops.a_op_spin(2 * p + sg, True) * ops.a_op_spin(2 * q + sg, False)
            elif kind == "flip":
                p, q = (int(x) for x in rng.integers(0, nso, 2))
                t = ops.a_op_spin(p, True) * ops.a_op_spin(q, False)
            else:
                p, q, r, w = (int(x) for x in rng.integers(0, n, 4))
                t = 0.7 * ops.Epq(p, q) + -1.3 * ops.Epq(r, w)
            desc.append(str(t.operators))
            op = op * t
            Mx = Mx @ O.op_matrix(t.operators, nso)
        before = dict(op.operators)
        F = op.get_folded_operator(ni, na, nv)
        m.case({"fold": [ni, na, nv], "op": desc}, len(op.operators) > 0)
        m.true("operand_unchanged", op.operators == before)
        holes, parts = classes(n, ni, na)
        cas = np.nonzero((holes == 0) & (parts == 0))[0]
        act = active_block(cas, n, ni, na, nv)
        m.true("fold_indices", all(0 <= p < 2 * na for k in F.operators for p, _ in k), split=[ni, na, nv])
        G = O.op_matrix(F.operators, 2 * na)[act][:, act]
        d = G - Mx[cas][:, cas]
        m.true("folding", (float(abs(d).max()) if d.nnz else 0.0) < 1e-9, split=[ni, na, nv], op=desc)


def run_foldstr(s, m, rng):
    """Long ladder strings with several operators on doubly and singly excited cores: every order of the inactive operators and every parity."""
    for _ in range(s["n"]):
        n = int(rng.integers(3, 5))
        ni = int(rng.integers(1, n))
        na = n - ni
        nso = 2 * n
        core, act = list(range(2 * ni)), list(range(2 * ni, nso))
        op, want, desc = FO.FermionicOperator({}), None, []
        for _t in range(int(rng.integers(1, 3))):
            ki = int(rng.integers(1, min(len(core), 4) + 1))
            cre = [int(v) for v in rng.choice(core, ki, replace=False)]
            ann = cre[:] if rng.random() < 0.8 else [int(v) for v in rng.choice(core, ki, replace=False)]
            ka, kb = int(rng.integers(0, min(len(act), 3) + 1)), int(rng.integers(0, min(len(act), 3) + 1))
            up = [(v, True) for v in cre] + [(int(v), True) for v in rng.choice(act, ka, replace=False)]
            dn = [(v, False) for v in ann] + [(int(v), False) for v in rng.choice(act, kb, replace=False)]
            rng.shuffle(up)
            rng.shuffle(dn)
            string = tuple((int(v), bool(d)) for v, d in up + dn)
            c = float(np.round(rng.normal(), 3)) or 1.0
            t = FO.FermionicOperator({(): c})
            for v, d in string:
                t = t * ops.a_op_spin(v, d)
            op = op + t
            W = c * O.string_matrix(string, nso)
            want = W if want is None else want + W
            desc.append([string, c])
        F = op.get_folded_operator(ni, na, 0)
        m.case({"foldstr": [ni, na], "op": str(desc)}, len(F.operators) > 0)
        head = ((1 << (2 * ni)) - 1) << (2 * na)
        idx = [head | d for d in range(1 << (2 * na))]
        d = O.op_matrix(F.operators, 2 * na) - want[idx][:, idx]
        m.true("folding", (float(abs(d).max()) if d.nnz else 0.0) < 1e-10, split=[ni, na, 0], op=str(desc))
        m._ev("folding_deep" if max(sum(1 for v, dd in st if dd and v < 2 * ni) for st, _c in desc) >= 3 and len(F.operators) else "folding_shallow")


def run_elem_spin(s, m, rng):
    for it in range(s["n"]):
        k = int(rng.integers(1, 7)) if it % 3 else int(rng.integers(1, 4))
        fn = [ops.G1, ops.G2, ops.G3, ops.G4, ops.G5, ops.G6][k - 1]
        pool = 12 if it % 2 else 20
        if it % 5 == 4:  # overlapping index sets: generalised excitations
            i = [int(x) for x in rng.choice(pool, k, replace=False)]
            a = [int(x) for x in rng.choice(pool, k, replace=False)]
        else:
            x = [int(x) for x in rng.choice(pool, 2 * k, replace=False)]
            i, a = x[:k], x[k:]
        # compress indices so that the matrices stay small (order preserving)
        lab = sorted(set(i) | set(a))
        pos = {l: t for t, l in enumerate(lab)}
        nso = len(lab)
        string = tuple((pos[x], True) for x in a) + tuple((pos[x], False) for x in i[::-1])
        W = O.string_matrix(string, nso)
        for ah in (False, True):
            op = fn(*i, *a, ah)
            got = O.op_matrix({tuple((pos[p], d) for p, d in key): c for key, c in op.operators.items()}, nso)
            want = W - W.T if ah else W
            m.case({"G": k, "i": i, "a": a, "ah": ah}, W.nnz > 0)
            d = got - want
            m.true("elementary", (float(abs(d).max()) if d.nnz else 0.0) < 1e-12, op=f"G{k}", i=i, a=a, ah=ah)


def run_elem_sa(s, m, rng):
    n = 4
    nso = 2 * n
    E = {(p, q): O.fock_E(p, q, nso) for p in range(n) for q in range(n)}
    for i, a in itertools.product(range(n), repeat=2):
        W = 2**-0.5 * E[a, i]
        for ah in (False, True):
            d = O.op_matrix(ops.G1_sa(i, a, ah).operators, nso) - (W - W.T if ah else W)
            m.case({"G1sa": [i, a, ah]}, i != a)
            m.true("elementary", (float(abs(d).max()) if d.nnz else 0.0) < 1e-12, op="G1_sa", i=i, a=a, ah=ah)
    for i, j, a, b in itertools.product(range(n), repeat=4):
        for case in (1, 2, 3, 4, 5):
            if case == 1 and not (i == j and a == b):
                continue
            if case == 2 and not (i == j and a != b):
                continue
            if case == 3 and not (i != j and a == b):
                continue
            if case in (4, 5) and (i == j or a == b):
                continue
            if case == 5:
                W = 1 / (2 * 3**0.5) * (E[a, i] @ E[b, j] - E[a, j] @ E[b, i])
            else:
                f = 2 * ((1 + (a == b)) * (1 + (i == j))) ** 0.5
                W = 1 / f * (E[a, i] @ E[b, j] + E[a, j] @ E[b, i])
            for ah in (False, True):
                d = O.op_matrix(ops.G2_sa(i, j, a, b, case, ah).operators, nso) - (W - W.T if ah else W)
                m.case({"G2sa": [i, j, a, b, case, ah]})
                m.true("elementary", (float(abs(d).max()) if d.nnz else 0.0) < 1e-12, op="G2_sa", idx=[i, j, a, b], c=case, ah=ah)
    m.raises("bad_case_rejected", ValueError, lambda: ops.G2_sa(0, 1, 2, 3, 6))


def run_elem_E(s, m, rng):
    n = 3
    nso = 2 * n
    E = {(p, q): O.fock_E(p, q, nso) for p in range(n) for q in range(n)}
    for p, q in itertools.product(range(n), repeat=2):
        for name, got, W in (("Epq", ops.Epq(p, q), E[p, q]), ("Eminus", ops.Eminuspq(p, q), E[p, q] - E[q, p])):
            d = O.op_matrix(got.operators, nso) - W
            m.case({name: [p, q]}, W.nnz > 0)
            m.true("elementary", (float(abs(d).max()) if d.nnz else 0.0) < 1e-12, op=name, p=p, q=q)
    for p, q, r, t in itertools.product(range(n), repeat=4):
        W = E[p, q] @ E[r, t]
        if q == r:
            W = W - E[p, t]
        d = O.op_matrix(ops.epqrs(p, q, r, t).operators, nso) - W
        m.case({"epqrs": [p, q, r, t]}, W.nnz > 0)
        m.true("elementary", (float(abs(d).max()) if d.nnz else 0.0) < 1e-12, op="epqrs", idx=[p, q, r, t])
