"""P07 determinant spaces."""
import itertools

from lib import oracle as O

RULE = ("every (inactive, active, virtual) split and alpha/beta electron count in the bound, for plain and order-1/2 extended spaces; "
        "a case is one space, non-trivial when it holds more than one determinant")
ASSUMPTIONS = ["determinants are read as integers with orbital 0 leftmost and alternating alpha/beta bits, the package's documented convention"]
REQUIRED = {"plain_complete": 100, "plain_bijection": 100, "ext_complete": 200, "ext_bijection": 200, "ext_cas_first": 200}


def load():
    global cs
    from slowquant.unitary_coupled_cluster import ci_spaces as cs_
    cs = cs_


def scenarios(tier, seed):
    out = []
    amax = 7 if tier == "quick" else 9
    for a in range(1, amax + 1):
        out.append({"id": f"plain-{a}", "kind": "plain", "a": a})
    tot = 5 if tier == "quick" else 7
    for i in range(0, 5):
        for v in range(0, 5):
            for a in range(1, tot + 1):
                if i + a + v <= tot:
                    out.append({"id": f"ext-{i}-{a}-{v}", "kind": "ext", "s": [i, a, v]})
    out.append({"id": "strings", "kind": "strings"})
    out.sort(key=lambda s: -sum(s.get("s", [s.get("a", 0)])))
    return out


def bij(m, name, ci, **ctx):
    dets = [int(x) for x in ci.idx2det]
    ok = len(set(dets)) == len(dets) and len(ci.det2idx) == len(dets)
    ok = ok and all(int(ci.det2idx[d]) == k for k, d in enumerate(dets))
    m.true(name, ok, **ctx)
    return dets


def run(s, m, rng):
    if s["kind"] == "plain":
        a = s["a"]
        for na in range(a + 1):
            for nb in range(a + 1):
                for ni, nv in ((0, 0), (2, 3)):
                    ci = cs.get_indexing(ni, a, nv, na, nb)
                    want = O.sector(a, na, nb)
                    m.case({"plain": [ni, a, nv, na, nb]}, len(want) > 1)
                    dets = bij(m, "plain_bijection", ci, cfg=[ni, a, nv, na, nb])
                    m.true("plain_complete", sorted(dets) == want, cfg=[ni, a, nv, na, nb], n=len(dets), want=len(want))
                    m.true("metadata", (ci.num_inactive_orbs, ci.num_active_orbs, ci.num_virtual_orbs, ci.num_active_elec_alpha,
                                        ci.num_active_elec_beta, ci.space_extension_offset) == (ni, a, nv, na, nb, 0))
    elif s["kind"] == "ext":
        ni, a, nv = s["s"]
        n = ni + a + nv
        for na in range(a + 1):
            for nb in range(a + 1):
                if abs(na - nb) > 2:
                    continue
                all_dets = O.sector(n, na + ni, nb + ni)
                for order in (1, 2):
                    want = set()
                    cas = set()
                    for d in all_dets:
                        bits = [(d >> (2 * n - 1 - p)) & 1 for p in range(2 * n)]
                        need = 0
                        for sg in (0, 1):
                            h = sum(1 - bits[2 * p + sg] for p in range(ni))
                            v = sum(bits[2 * p + sg] for p in range(ni + a, n))
                            need += max(h, v)
                        if need <= order:
                            want.add(d)
                        if need == 0:
                            cas.add(d)
                    ci = cs.get_indexing_extended(ni, a, nv, na, nb, order)
                    cfg = [ni, a, nv, na, nb, order]
                    m.case({"ext": cfg}, len(want) > 1)
                    dets = bij(m, "ext_bijection", ci, cfg=cfg)
                    m.true("ext_complete", set(dets) == want, cfg=cfg, missing=len(want - set(dets)), extra=len(set(dets) - want))
                    m.true("ext_cas_first", set(dets[: len(cas)]) == cas, cfg=cfg)
                    # same relative order as the plain active space
                    plain = cs.get_indexing(ni, a, nv, na, nb)
                    head = (1 << (2 * ni)) - 1
                    emb = [(head << (2 * (a + nv))) | (int(x) << (2 * nv)) for x in plain.idx2det]
                    m.true("ext_cas_first", dets[: len(cas)] == emb, cfg=cfg, why="order")
                    m.true("metadata", (ci.num_inactive_orbs, ci.num_active_orbs, ci.num_virtual_orbs, ci.num_active_elec_alpha,
                                        ci.num_active_elec_beta, ci.space_extension_offset) == (0, n, 0, na + ni, nb + ni, ni), cfg=cfg)
        m.raises("order_rejected", ValueError, lambda: cs.get_indexing_extended(ni, a, nv, 1, 1, 3))
    else:
        for n in range(0, 8):
            for k in range(-1, n + 2):
                got = [tuple(x) for x in cs.generate_spin_strings(n, k)]
                want = [x for x in itertools.product((0, 1), repeat=n) if sum(x) == k]
                m.case({"strings": [n, k]}, len(want) > 1)
                m.true("spin_strings", sorted(got) == sorted(want), n=n, k=k)
