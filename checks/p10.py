"""P10 excitation lists and ansatz layouts vs. an independent statement of their definitions."""
import contextlib
import io
import itertools

import numpy as np

from lib import gens, mols
from lib import oracle as O

RULE = ("every excitation iterator on every occupied/unoccupied split up to a size bound, and every ansatz name/option combination (random subsets of options, 1-3 "
        "layers, all CAS shapes that fit) through the layout builders, the three state-vector wave functions and the circuit interface; a case is one such "
        "configuration, non-trivial when it yields at least one excitation")
ASSUMPTIONS = ["'generalised' excitations are the upward ones (every annihilated index below every created one), as the code base defines them",
               "block order inside a layer S,GS,SAS,SAGS,D,GD,pD,GpD,T,Q,5,6,SAD; brick-wall order for the tiled ansaetze"]
REQUIRED = {"iterator_complete": 100, "iterator_no_duplicates": 100, "iterator_normalisation": 20, "layout": 150, "one_parameter_per_excitation": 150,
            "shift_rule_degree": 100, "wf_layout": 60, "circuit_layout": 20, "rejects": 40, "state_of_layout": 20, "caller_options_untouched": 60, "ucc_layout": 20, "pairing": 40}


def load():
    global util, UPS, UCC, SAUPS, np_, QI, JW, PM, Sampler
    from slowquant.unitary_coupled_cluster import util as util_
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS
    util, UPS, UCC, SAUPS = util_, WaveFunctionUPS, WaveFunctionUCC, WaveFunctionSAUPS


def warm():
    mol = mols.hydrogens(np.random.default_rng(1), 2)
    wf = UPS((2, 2), mol.rhf_mo, mol.mole, "fucc", {"S": True, "D": True, "SAS": True, "SAD": True})
    wf.thetas = [0.1] * len(wf.thetas)
    wf.ci_coeffs


NAMED = {
    "tups": ("tiled", {"do_tups": True}), "qnp": ("tiled", {"do_qnp": True}), "fucc": ("fucc", {}), "fuccsd": ("fucc", {"S": True, "D": True}),
    "fuccd": ("fucc", {"D": True}), "ksafupccgsd": ("fucc", {"SAGS": True, "GpD": True}), "fuccpd": ("fucc", {"pD": True}),
    "safuccsd": ("fucc", {"SAS": True, "SAD": True}), "sdsfuccsd": ("sds", {"D": True}), "ksasdsfupccgsd": ("sds", {"GpD": True})}
UPS_N = ["tups", "qnp", "fucc", "fuccsd", "ksafupccgsd", "fuccpd", "safuccsd", "sdsfuccsd", "ksasdsfupccgsd"]
SA_N = ["tups", "qnp", "fucc", "ksafupccgsd", "safuccsd", "ksasdsfupccgsd"]
QI_N = ["fucc", "fuccpd", "fuccd", "fuccsd", "ksafupccgsd", "tups", "qnp", "sdsfuccsd", "ksasdsfupccgsd"]
FOPT = ["S", "GS", "SAS", "SAGS", "D", "GD", "pD", "GpD", "T", "Q", "5", "6", "SAD"]
CIRCUIT_FOPT = ["S", "GS", "SAS", "SAGS", "D", "GD", "pD", "GpD"]


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 6
    out = [{"id": f"iter-{n}", "kind": "iter", "n": n} for n in range(1, 7)]
    for i in range(8 * k):
        out.append({"id": f"layout-{i}", "kind": "layout", "n": 40})
    for nm in UPS_N:
        for i in range(k):
            out.append({"id": f"ups-{nm}-{i}", "kind": "ups", "name": nm, "n": 9})
    for nm in SA_N:
        for i in range(k):
            out.append({"id": f"sa-{nm}-{i}", "kind": "sa", "name": nm, "n": 5})
    for nm in QI_N:
        for i in range(k):
            out.append({"id": f"qi-{nm}-{i}", "kind": "qi", "name": nm, "n": 4})
    out.append({"id": "ucc", "kind": "ucc"})
    out.append({"id": "reject", "kind": "reject"})
    out.append({"id": "pairing", "kind": "pairing"})
    return out


# ------------------------------------------------------------------ definitions
def spin_ok(i, a):
    return sum(x % 2 for x in i) == sum(x % 2 for x in a)


def ref_rank(occ, unocc, k):
    """Created indices vary slowest (as documented by the parameter order of the layouts)."""
    return [(i, a) for a in itertools.combinations(unocc, k) for i in itertools.combinations(occ, k) if spin_ok(i, a)]


def ref_sad(occ, unocc):
    out = []
    for i, j in itertools.combinations_with_replacement(occ, 2):
        for a, b in itertools.combinations_with_replacement(unocc, 2):
            case = {(1, 1): 1, (1, 0): 2, (0, 1): 3, (0, 0): 4}[(int(i == j), int(a == b))]
            out.append(((i, j), (a, b), case))
            if case == 4:
                out.append(((i, j), (a, b), 5))
    return out


def sa_fac(i, j, a, b, case):
    return 1 / (2 * 3**0.5) if case == 5 else 1 / (2 * ((1 + (a == b)) * (1 + (i == j))) ** 0.5)


def ref_layout(kind, opts, occ, unocc, n):
    so = [2 * x + s for x in occ for s in (0, 1)]
    su = [2 * x + s for x in unocc for s in (0, 1)]
    L = []
    nl = opts["n_layers"]
    for lay in range(nl):
        if kind == "tiled":
            cols = [list(range(0, n - 1, 2)), list(range(1, n - 1, 2))]
            for ic, col in enumerate(cols):
                for p in col:
                    if opts.get("do_tups"):
                        L.append(("sa_single", (p, p + 1)))
                    L.append(("double", (2 * p, 2 * p + 1, 2 * p + 2, 2 * p + 3)))
                    last = lay == nl - 1 and (ic == 1 or n == 2)
                    if not (opts.get("skip_last_singles") and last):
                        L.append(("sa_single", (p, p + 1)))
        elif kind == "fucc":
            for o in FOPT:
                if not opts.get(o):
                    continue
                if o in ("S", "D", "T", "Q", "5", "6"):
                    k = {"S": 1, "D": 2, "T": 3, "Q": 4, "5": 5, "6": 6}[o]
                    nm = [t for t, r in gens.RANK.items() if r == k][0]
                    L += [(nm, i + a) for i, a in ref_rank(so, su, k)]
                elif o == "GS":
                    L += [("single", (i, a)) for i, a in itertools.combinations(range(2 * n), 2) if i % 2 == a % 2]
                elif o == "SAS":
                    L += [("sa_single", (i, a)) for i in occ for a in unocc]
                elif o == "SAGS":
                    L += [("sa_single", x) for x in itertools.combinations(range(n), 2)]
                elif o == "GD":
                    L += [("double", x) for x in itertools.combinations(range(2 * n), 4) if spin_ok(x[:2], x[2:])]
                elif o == "pD":
                    L += [("double", (2 * i, 2 * i + 1, 2 * a, 2 * a + 1)) for i in occ for a in unocc]
                elif o == "GpD":
                    L += [("double", (2 * i, 2 * i + 1, 2 * a, 2 * a + 1)) for i, a in itertools.combinations(range(n), 2)]
                elif o == "SAD":
                    L += [(f"sa_double_{c}", i + a) for i, a, c in ref_sad(occ, unocc)]
        elif kind == "sds":
            if opts.get("D"):
                for (i, j), (a, b) in ref_rank(so, su, 2):
                    x, y = (a, b) if i % 2 == a % 2 else (b, a)
                    L += [("single", (i, x)), ("double", (i, j, a, b)), ("single", (j, y))]
            pairs = []
            if opts.get("pD"):
                pairs += [(i, a) for i in occ for a in unocc]
            if opts.get("GpD"):
                pairs += list(itertools.combinations(range(n), 2))
            for i, a in pairs:
                L += [("sa_single", (i, a)), ("double", (2 * i, 2 * i + 1, 2 * a, 2 * a + 1)), ("sa_single", (i, a))]
    return L


def got_layout(L):
    return [(str(t), tuple(int(x) for x in i)) for t, i in zip(L.excitation_operator_type, L.excitation_indices)]


def ref_R(entries):
    return [4 if t == "sa_single" else (None if t.startswith("sa_double") else 2) for t, _ in entries]


def compare(m, name, L, want, **ctx):
    got = got_layout(L)
    ok = m.true(name, got == want, first_diff=next(((k, g, w) for k, (g, w) in enumerate(itertools.zip_longest(got, want)) if g != w), None),
                n_got=len(got), n_want=len(want), **ctx)
    m.true("one_parameter_per_excitation", L.n_params == len(L.excitation_indices) == len(L.excitation_operator_type), **ctx)
    if hasattr(L, "param_names"):
        m.true("one_parameter_per_excitation", len(L.param_names) == len(want) and len(set(L.param_names)) == len(want) and list(L.param_names) == sorted(L.param_names), **ctx)
        m.true("shift_rule_degree", [L.grad_param_R.get(x) for x in L.param_names] == ref_R(want), **ctx)
    return ok


def rand_opts(rng, kind, name=None, circuit=False):
    base = dict(NAMED[name][1]) if name else {}
    o = {}
    if kind == "tiled":
        o["n_layers"] = int(rng.integers(1, 4))
        if rng.random() < 0.5:
            o["skip_last_singles"] = bool(rng.random() < 0.7)
        if not name:
            o["do_tups" if rng.random() < 0.5 else "do_qnp"] = True
    elif kind == "fucc":
        if rng.random() < 0.6 or not name:
            o["n_layers"] = int(rng.integers(1, 4))
        pool = CIRCUIT_FOPT if circuit else FOPT
        if name in (None, "fucc"):
            for x in rng.choice(pool, int(rng.integers(1, 4)), replace=False):
                o[str(x)] = True
        if rng.random() < 0.3:
            x = str(rng.choice(pool))
            o.setdefault(x, False)
            if name and x in base:
                del o[x]
    else:
        if rng.random() < 0.6 or not name:
            o["n_layers"] = int(rng.integers(1, 4))
        if not name or rng.random() < 0.3:
            for x in rng.choice(["D", "pD", "GpD"], int(rng.integers(1, 3)), replace=False):
                o[str(x)] = True
    eff = {**o, **base}
    eff.setdefault("n_layers", 1)
    return o, eff


def run(s, m, rng):
    globals()["run_" + s["kind"]](s, m, rng)


def run_iter(s, m, rng):
    n = s["n"]
    for k in range(0, n + 1):
        off = int(rng.integers(0, 3))
        occ, unocc = list(range(off, off + k)), list(range(off + k, off + n))
        if n >= 3 and rng.random() < 0.5:  # non-contiguous occupied sets are legal too
            perm = sorted(rng.permutation(n)[:k].tolist())
            occ = [off + x for x in perm]
            unocc = [off + x for x in range(n) if x not in perm]
        so = [2 * x + t for x in occ for t in (0, 1)]
        su = [2 * x + t for x in unocc for t in (0, 1)]
        m.case({"iter": [occ, unocc]}, bool(occ and unocc))

        def chk(name, got, want):
            got, want = list(got), list(want)
            m.true("iterator_complete", set(got) == set(want), iterator=name, occ=occ, unocc=unocc, missing=list(set(want) - set(got))[:4], extra=list(set(got) - set(want))[:4])
            m.true("iterator_no_duplicates", len(got) == len(set(got)), iterator=name, occ=occ, unocc=unocc)

        for r in range(1, 7):
            if len(ref := ref_rank(so, su, r)) > 60000:
                continue
            it = getattr(util, f"iterate_t{r}")(so, su)
            chk(f"t{r}", [(t[1::2], t[0::2]) for t in it], ref)
        t1 = list(util.iterate_t1_sa(occ, unocc))
        chk("t1_sa", [(i, a) for a, i, _ in t1], [(i, a) for i in occ for a in unocc])
        m.close("iterator_normalisation", [f for *_, f in t1], [2**-0.5] * len(t1), 1e-14)
        t2 = list(util.iterate_t2_sa(occ, unocc))
        chk("t2_sa", [((i, j), (a, b), c) for a, i, b, j, _, c in t2], ref_sad(occ, unocc))
        m.close("iterator_normalisation", [f for *_, f, _ in t2], [sa_fac(i, j, a, b, c) for a, i, b, j, _, c in t2], 1e-14)
        chk("pair", list(util.iterate_pair_t2(occ, unocc)), [(2 * a, 2 * i, 2 * a + 1, 2 * i + 1) for i in occ for a in unocc])
    chk("t1_gen", list(util.iterate_t1_generalized(2 * n)), [(a, i) for i, a in itertools.combinations(range(2 * n), 2) if i % 2 == a % 2])
    chk("t2_gen", list(util.iterate_t2_generalized(2 * n)), [(a, i, b, j) for i, j, a, b in itertools.combinations(range(2 * n), 4) if spin_ok((i, j), (a, b))])
    chk("pair_gen", list(util.iterate_pair_t2_generalized(n)), [(2 * a, 2 * i, 2 * a + 1, 2 * i + 1) for i, a in itertools.combinations(range(n), 2)])
    t1 = list(util.iterate_t1_sa_generalized(n))
    chk("t1_sa_gen", [(i, a) for a, i, _ in t1], list(itertools.combinations(range(n), 2)))
    m.close("iterator_normalisation", [f for *_, f in t1], [2**-0.5] * len(t1), 1e-14)
    t2 = list(util.iterate_t2_sa_generalized(n))
    want = [(i, a, c) for i, a, c in ref_sad(list(range(n)), list(range(n))) if max(i) < min(a)]
    chk("t2_sa_gen", [((i, j), (a, b), c) for a, i, b, j, _, c in t2], want)
    m.close("iterator_normalisation", [f for *_, f, _ in t2], [sa_fac(i, j, a, b, c) for a, i, b, j, _, c in t2], 1e-14)


def run_layout(s, m, rng):
    for _ in range(s["n"]):
        kind = str(rng.choice(["tiled", "fucc", "fucc", "sds"]))
        n = int(rng.integers(2, 7))
        k = int(rng.integers(1, n))
        occ, unocc = list(range(k)), list(range(k, n))
        o, eff = rand_opts(rng, kind)
        if n >= 6:
            o = {x: v for x, v in o.items() if x not in ("5", "6", "Q")}
            eff = {x: v for x, v in eff.items() if x not in ("5", "6", "Q")}
            if kind == "fucc" and not any(v for x, v in o.items() if x != "n_layers"):
                continue
        so = [2 * x + t for x in occ for t in (0, 1)]
        su = [2 * x + t for x in unocc for t in (0, 1)]
        want = ref_layout(kind, eff, occ, unocc, n)
        m.case({"layout": kind, "opts": o, "n": n, "k": k}, bool(want))
        L = util.UpsStructure()
        keep = dict(o)
        if kind == "tiled":
            L.create_tiled(n, o)
        elif kind == "fucc":
            L.create_fUCC(occ, unocc, so, su, n, o)
        else:
            L.create_SDSfUCC(occ, unocc, so, su, n, o)
        compare(m, "layout", L, want, kind_=kind, opts=o, n=n, k=k)
        m.true("caller_options_untouched", o == keep)
    L = util.UccStructure()


CAS = [((2, 2), 2), ((2, 2), 4), ((2, 3), 4), ((4, 3), 6), ((4, 4), 4), ((2, 4), 6), ((6, 4), 6), ((4, 5), 6), ((6, 6), 6)]


def pick(s, it):
    return CAS[(it + len(s["name"])) % len(CAS)]


def run_ups(s, m, rng):
    kind = NAMED[s["name"]][0]
    for it in range(s["n"]):
        cas, nh = pick(s, it)
        o, eff = rand_opts(rng, kind, s["name"])
        if cas[1] > 4:
            for x in ("5", "6", "Q"):
                o.pop(x, None), eff.pop(x, None)
            if s["name"] == "fucc" and not any(v for x, v in o.items() if x != "n_layers"):
                o["D"] = eff["D"] = True
        mol = mols.hydrogens(rng, nh, dmin=0.7)
        n, k = cas[1], cas[0] // 2
        want = ref_layout(kind, eff, list(range(k)), list(range(k, n)), n)
        nm = s["name"] if it % 2 else "".join(c.upper() if rng.random() < 0.5 else c for c in s["name"])
        m.case({"ups": nm, "opts": o, "cas": cas, "nh": nh}, bool(want))
        keep = dict(o)
        wf = UPS(cas, mols.random_mo(rng, mol), mol.mole, nm, o)
        m.true("caller_options_untouched", o == keep, ansatz=nm, opts=o, was=keep)
        compare(m, "wf_layout", wf.ups_layout, want, ansatz=nm, opts=o, cas=cas)
        m.true("one_parameter_per_excitation", len(wf.thetas) == len(want), ansatz=nm)
        # the same options object reused for a second wave function gives the same ansatz
        wf2 = UPS(cas, mols.random_mo(rng, mol), mol.mole, nm, o)
        compare(m, "wf_layout", wf2.ups_layout, want, ansatz=nm, opts=o, cas=cas, second=True)
        if cas[1] <= 4 and len(want) <= 60:
            sec = O.Sector(n, k, k, wf.ci_info.idx2det)
            th = rng.uniform(-1, 1, len(want))
            wf.thetas = th.tolist()

            class R:
                excitation_operator_type = [t for t, _ in want]
                excitation_indices = [i for _, i in want]

            m.close("state_of_layout", wf.ci_coeffs, gens.ups_state(sec, R, th, wf.csf_coeffs), 1e-7, ansatz=nm, opts=o, cas=cas)


def run_sa(s, m, rng):
    kind = NAMED[s["name"]][0]
    for it in range(s["n"]):
        cas, nh = pick(s, it)
        if cas[1] > 4:
            cas, nh = (4, 4), 6
        o, eff = rand_opts(rng, kind, s["name"])
        n, k = cas[1], cas[0] // 2
        want = ref_layout(kind, eff, list(range(k)), list(range(k, n)), n)
        mol = mols.hydrogens(rng, nh, dmin=0.7)
        m.case({"sa": s["name"], "opts": o, "cas": cas}, bool(want))
        hf = "1" * cas[0] + "0" * (2 * n - cas[0])
        ex = list(hf)
        ex[cas[0] - 2:cas[0]] = "00"
        ex[cas[0]:cas[0] + 2] = "11"
        keep = dict(o)
        wf = SAUPS(cas, mols.random_mo(rng, mol), mol.mole, ([[1.0], [1.0]], [[hf], ["".join(ex)]]), s["name"], o)
        m.true("caller_options_untouched", o == keep, ansatz=s["name"])
        compare(m, "wf_layout", wf.ups_layout, want, ansatz=s["name"], opts=o, cas=cas, sa=True)


def run_qi(s, m, rng):
    from qiskit_aer.primitives import Sampler
    from qiskit_nature.second_q.mappers import JordanWignerMapper
    from slowquant.qiskit_interface.interface import QuantumInterface
    kind = NAMED[s["name"]][0]
    for it in range(s["n"]):
        cas = [(2, 2), (2, 3), (4, 3), (4, 4)][it % 4]
        n, k = cas[1], cas[0] // 2
        o, eff = rand_opts(rng, kind, s["name"], circuit=True)
        eff["n_layers"] = min(eff["n_layers"], 2)
        if "n_layers" in o:
            o["n_layers"] = min(o["n_layers"], 2)
        occ, unocc = list(range(k)), list(range(k, n))
        want = ref_layout(kind, eff, occ, unocc, n)
        m.case({"qi": s["name"], "opts": o, "cas": cas}, bool(want))
        keep = dict(o)
        qi = QuantumInterface(Sampler(), s["name"], JordanWignerMapper(), ansatz_options=o)
        qi.construct_circuit(occ, unocc, [2 * x + t for x in occ for t in (0, 1)], [2 * x + t for x in unocc for t in (0, 1)], n, (k, k))
        m.true("caller_options_untouched", o == keep, ansatz=s["name"])
        m.true("circuit_layout", len(qi.param_names) == len(want) == qi.circuit.num_parameters == len(qi.parameters), ansatz=s["name"], opts=o, cas=cas, got=len(qi.param_names), want=len(want))
        m.true("circuit_layout", [qi.grad_param_R.get(x) for x in qi.param_names] == ref_R(want), ansatz=s["name"], opts=o, cas=cas)
        # the circuit prepares the state of the reference layout, up to the harness's own Jordan-Wigner convention
        if n <= 3 or len(want) <= 12:
            from qiskit.quantum_info import Statevector
            th = rng.uniform(-1, 1, len(want))
            circ = qi.circuit.assign_parameters(th.tolist())  # includes the reference-state preparation
            sv = np.asarray(Statevector(circ).data)
            sec = O.Sector(n, k, k)
            ref = np.zeros(sec.dim)
            ref[sec.index[int("11" * k + "00" * (n - k), 2)]] = 1

            class R:
                excitation_operator_type = [t for t, _ in want]
                excitation_indices = [i for _, i in want]

            st = gens.ups_state(sec, R, th, ref)
            probs = np.zeros(2 ** (2 * n))
            for c, d in zip(st, sec.dets):
                q = 0  # qubit order: alpha block then beta block, qubit 0 least significant
                for p in range(n):
                    if (int(d) >> (2 * n - 1 - 2 * p)) & 1:
                        q |= 1 << p
                    if (int(d) >> (2 * n - 2 - 2 * p)) & 1:
                        q |= 1 << (n + p)
                probs[q] = c * c
            m.close("state_of_layout", np.abs(sv) ** 2, probs, 1e-7, ansatz=s["name"], opts=o, cas=cas, circuit=True)


def run_ucc(s, m, rng):
    for cas, nh in CAS[:-1]:
        n, k = cas[1], cas[0] // 2
        occ, unocc = list(range(k)), list(range(k, n))
        so = [2 * x + t for x in occ for t in (0, 1)]
        su = [2 * x + t for x in unocc for t in (0, 1)]
        mol = mols.hydrogens(rng, nh, dmin=0.7)
        for ex in ("S", "D", "SD", "sd", "SDT", "SDTQ", "SDTQ5", "SDTQ56", "DQ"):
            want = []
            e = ex.lower()
            if "s" in e:
                want += [("sa_single", (i, a)) for i in occ for a in unocc]
            if "d" in e:
                want += [(f"sa_double_{c}", i + a) for i, a, c in ref_sad(occ, unocc)]
            for ch, r, nm in (("t", 3, "triple"), ("q", 4, "quadruple"), ("5", 5, "quintuple"), ("6", 6, "sextuple")):
                if ch in e:
                    want += [(nm, i + a) for i, a in ref_rank(so, su, r)]
            m.case({"ucc": ex, "cas": cas}, bool(want))
            wf = UCC(cas, mols.random_mo(rng, mol), mol.mole, ex)
            compare(m, "ucc_layout", wf.ucc_layout, want, ex=ex, cas=cas)
            m.true("one_parameter_per_excitation", len(wf.thetas) == len(want))


def run_reject(s, m, rng):
    mol = mols.hydrogens(rng, 4)
    C = mols.random_mo(rng, mol)
    st = ([[1.0]], [["1100"]])
    m.case({"reject": 1})
    bad = [("tups", {}), ("tups", {"n_layers": 1, "S": True}), ("tups", {"n_layers": 1, "do_qnp": True}), ("qnp", {"n_layers": 1, "do_tups": True}),
           ("qnp", {}), ("fucc", {}), ("fucc", {"n_layers": 1}), ("fucc", {"S": True, "bogus": True}), ("fucc", {"S": False}), ("fuccsd", {"do_tups": True}),
           ("sdsfuccsd", {"S": True}), ("ksasdsfupccgsd", {"layers": 1}), ("nonsense", {"n_layers": 1}), ("ksafupccgsd", {"skip_last_singles": True})]
    for nm, o in bad:
        m.raises("rejects", ValueError, lambda: UPS((2, 2), C, mol.mole, nm, dict(o)), ansatz=nm, opts=o)
        m.raises("rejects", ValueError, lambda: SAUPS((2, 2), C, mol.mole, st, nm, dict(o)), ansatz=nm, opts=o, sa=True)
    for kw in ({}, {"n_layers": 1, "S": True}, {"n_layers": 1}, {"n_layers": 1, "do_tups": True, "do_qnp": True}, {"n_layers": 1, "do_tups": False}):
        m.raises("rejects", ValueError, lambda: util.UpsStructure().create_tiled(3, dict(kw)), opts=kw)
    for kw in ({}, {"S": True}, {"n_layers": 1}, {"n_layers": 1, "x": True}, {"n_layers": 1, "do_tups": True, "S": True}):
        m.raises("rejects", ValueError, lambda: util.UpsStructure().create_fUCC([0], [1], [0, 1], [2, 3], 2, dict(kw)), opts=kw)
    for kw in ({}, {"D": True}, {"n_layers": 1}, {"n_layers": 1, "S": True, "D": True}):
        m.raises("rejects", ValueError, lambda: util.UpsStructure().create_SDSfUCC([0], [1], [0, 1], [2, 3], 2, dict(kw)), opts=kw)
    m.raises("rejects", ValueError, lambda: UPS((2,), C, mol.mole, "tups", {"n_layers": 1}))
    m.raises("rejects", ValueError, lambda: UPS((3, 3), C, mol.mole, "tups", {"n_layers": 1}))
    m.raises("rejects", ValueError, lambda: SAUPS((2, 2), C, mol.mole, st, "tups", {"n_layers": 1, "do_pp": True}))


def run_pairing(s, m, rng):
    """Perfect-pairing reference: for every electron/orbital count a determinant with the right electrons, whose orbitals are a relabelling that leaves the energy alone."""
    mol = mols.hydrogens(rng, 6)
    C = O.random_mo(rng, mol.S)
    n = mol.nelec // 2
    h, g = O.transform(C, mol.h, mol.g)
    I = slice(0, n)
    want = 2 * np.trace(h[I, I]) + 2 * np.einsum("iijj->", g[I, I, I, I]) - np.einsum("ijji->", g[I, I, I, I])
    for ne in (2, 4, 6):
        ni = n - ne // 2
        for no in range(ne // 2, 7 - ni):
            opts = {"n_layers": 1, "do_pp": True}
            Ci = C.copy()
            cfg = {"pairing": [ne, no]}
            m.case(cfg, no > ne // 2)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    wf = UPS((ne, no), Ci, mol.mole, "tups", opts)
            except ValueError as e:
                m.violate("pairing", why="a valid active space was refused", error=str(e), **cfg)
                continue
            ref = np.nonzero(wf.csf_coeffs)[0]
            if not m.true("pairing", len(ref) == 1 and abs(wf.csf_coeffs[ref[0]]) == 1, **cfg):
                continue
            det = format(int(wf.ci_info.idx2det[ref[0]]), f"0{2 * no}b")
            pairs = [det[2 * i : 2 * i + 2] for i in range(no)]
            m.true("pairing", pairs.count("11") == ne // 2 and pairs.count("00") == no - ne // 2, det=det, **cfg)
            if ne <= no:
                m.true("pairing", det == ("1100" * (ne // 2)).ljust(2 * no, "0"), det=det, **cfg)
            # the occupied orbitals of the reference are the occupied orbitals handed in
            occ = list(range(ni)) + [ni + i for i, p in enumerate(pairs) if p == "11"]
            Cw = np.array(wf.c_mo)
            m.close("pairing", Cw[:, occ] @ Cw[:, occ].T, C[:, :n] @ C[:, :n].T, 1e-10, **cfg)
            m.close("pairing", Cw @ Cw.T, C @ C.T, 1e-10, **cfg)
            m.close("pairing", float(wf.energy_elec), float(want), 1e-8, **cfg)
            m.close("pairing", Ci, C, 0.0, why="the orbitals handed in were changed", **cfg)
