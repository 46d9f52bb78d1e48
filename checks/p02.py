"""P02 molecule specification: the same molecule written in many ways, and every shipped basis function against its definition."""
import json
import os
import tempfile

import numpy as np

from lib import basis as B
from lib import mols

RULE = ("random molecules (1-6 atoms over all elements of the shipped basis sets, charges -2..3) written as coordinate files and inline strings with random whitespace, number formats, "
        "trailing separators and blank lines, in every unit name, in random atom order; and every element of every shipped basis set as an atom; atoms, electron counts, masses, centre of "
        "mass, repulsion and basis-function amplitudes compared with own parsing, PySCF element data and PySCF Gaussians; a case is one text or one (basis, element), non-trivial when "
        "it has two atoms or is a basis element")
ASSUMPTIONS = ["PySCF element masses/charges and Gaussians", "element symbols are written with their standard capitalisation", "elements without a standard atomic weight carry no mass and are left out of the mass monitors",
               "the published exponents and coefficients are those of the pinned files (digest), cross-checked with PySCF's library where the versions agree"]
REQUIRED = {"coordinates": 150, "charges": 150, "electrons": 150, "mass_center": 150, "repulsion": 150, "functions": 100, "same_molecule": 80, "permutation": 40, "element_data": 90,
            "basis_element": 400, "basis_data": 400, "normalised": 100, "rejected": 30, "bf_count": 400, "basis_switch": 15}


def load():
    global SlowQuant, atom_to_properties
    from slowquant.molecule.constants import atom_to_properties as f
    from slowquant.SlowQuant import SlowQuant as SQ
    SlowQuant, atom_to_properties = SQ, f


def scenarios(tier, seed):
    out = [{"id": f"text-{i}", "kind": "text", "n": 12} for i in range(16 if tier == "quick" else 200)]
    out += [{"id": f"basis-{b}-{k}", "kind": "basis", "basis": b, "part": k} for b in B.names() for k in range(3)]
    out += [{"id": "elements", "kind": "elements"}]
    out += [{"id": f"switch-{i}", "kind": "switch"} for i in range(4 if tier == "quick" else 30)]
    return out


NO_MASS = ("Tc", "Pm", "Po", "At", "Rn", "Fr", "Ra", "Ac")


def fmt(rng, v):
    k = int(rng.integers(4))
    return [f"{v:.10f}", f"{v:.10e}", f"{v:+.10f}", repr(float(f"{v:.10f}"))][k]


def ws(rng):
    return str(rng.choice([" ", "  ", "\t", "     ", " \t "]))


def inline(rng, at):
    parts = []
    for s, p in at:
        parts.append((ws(rng) if rng.random() < 0.4 else "") + s + ws(rng) + ws(rng).join(fmt(rng, v) for v in p) + (ws(rng) if rng.random() < 0.3 else ""))
    sep = str(rng.choice([";", " ; ", ";\n", "; "]))
    t = sep.join(parts)
    if len(at) == 1 or rng.random() < 0.5:
        t += ";" + ("" if rng.random() < 0.5 else "  \n")
    return t


def xyz(rng, at):
    t = f"{ws(rng) if rng.random() < .3 else ''}{len(at)}\n" + str(rng.choice(["", "comment", "; H 0 0 0", "  title  "])) + "\n"
    lines = [(ws(rng) if rng.random() < 0.3 else "") + s + ws(rng) + ws(rng).join(fmt(rng, v) for v in p) + (ws(rng) if rng.random() < 0.3 else "") for s, p in at]
    t += "\n".join(lines)
    return t + str(rng.choice(["", "\n", "\n\n", "\n  \n"]))


def make(text, charge, unit, basis=None, late=False):
    sq = SlowQuant()
    if basis is None:
        sq.set_molecule(text, charge, unit)
    elif late:
        sq.set_molecule(text, molecular_charge=charge, distance_unit=unit)
        sq.set_basis_set(basis)
    else:
        sq.set_molecule(text, charge, unit, basis)
    return sq


def run(s, m, rng):
    from pyscf.data import elements as el
    if s["kind"] == "elements":
        m.case("elements")
        for z in range(1, 119):
            sym = el.ELEMENTS[z]
            m.true("element_data", int(atom_to_properties(sym, "charge")) == z, symbol=sym)
            mass = atom_to_properties(sym, "mass")
            if mass:
                m.close("element_data", float(mass), float(el.MASSES[z]), 0.01, symbol=sym)
        return
    if s["kind"] == "basis":
        bs = s["basis"]
        ref = json.load(open(os.path.join(os.path.dirname(B.__file__), "basis_digest.json")))[bs]
        tab = B.table(bs)
        for e in sorted(ref)[s["part"] :: 3]:
            m.case({"basis": bs, "element": e})
            m.true("basis_data", e in tab and B.digest(tab[e]) == ref[e], basis=bs, element=e)
            if e not in tab:
                continue
            x = rng.normal(size=3)
            at = [(e.capitalize(), tuple(float(v) for v in x))]
            sq = SlowQuant()
            sq.set_molecule(B.text(at), 0, "bohr")
            sq.molecule._set_basis_set(bs if rng.random() < 0.5 else bs.upper())
            tw = B.Twin(at, [tab[e]])
            m.true("bf_count", sq.molecule.number_bf == tw.nbf and len(sq.molecule.basis_function_labels) == tw.nbf, basis=bs, element=e, got=sq.molecule.number_bf, want=tw.nbf)
            if sq.molecule.number_bf == tw.nbf:
                pts = x + rng.normal(size=(3, 3)) * np.array([[0.3], [1.0], [2.0]])
                w = tw.amplitudes(pts)
                m.close("basis_element", sq.molecule.get_basis_function_amplitude(pts), w, 1e-9 * (1 + np.max(np.abs(w))), 1e-9, basis=bs, element=e)
            if tw.nbf <= 16:
                from slowquant.molecularintegrals.multipole import multipole_integral_driver
                S = multipole_integral_driver(sq.molecule, np.array([0, 0, 0]))
                m.close("normalised", np.diag(S), np.ones(tw.nbf), 1e-10, basis=bs, element=e)
        return
    if s["kind"] == "switch":
        # several molecules and basis sets on one object: always the last one set
        sq = SlowQuant()
        for k in range(5):
            bs = str(rng.choice(["sto-3g", "6-31g", "6-31g*", "cc-pvdz", "def2-svp"]))
            els = [str(rng.choice(["h", "he", "li", "c", "o"])) for _ in range(int(rng.integers(1, 3)))]
            at = [(e.capitalize(), p) for e, p in zip(els, mols.spread_points(rng, len(els), 1.0))]
            if k == 0 or rng.random() < 0.5:
                sq.set_molecule(B.text(at), 0, "bohr", bs)
                last = at
            else:
                sq.set_basis_set(bs)
            tw = B.Twin(last, [B.table(bs)[a[0].lower()] for a in last])
            m.case({"switch": k, "basis": bs, "atoms": last})
            m.true("bf_count", sq.molecule.number_bf == tw.nbf, basis=bs, atoms=last)
            m.close("basis_switch", sq.integral.overlap_matrix, tw.S, 1e-10, basis=bs, atoms=last)
            m.close("basis_switch", sq.integral.nuclear_attraction_matrix, tw.V, 1e-9, basis=bs, atoms=last)
        return
    for _ in range(s["n"]):
        n = int(rng.integers(1, 7))
        bs = str(rng.choice(B.names()))
        syms = [x.capitalize() for x in B.table(bs) if x.capitalize() not in NO_MASS and el.charge(x) <= 36]
        big = rng.random() < 0.3
        els = [str(rng.choice(syms)) if big else str(rng.choice([x for x in ("H", "He", "Li", "C", "O", "Cl", "B", "Be", "N", "S", "P", "F") if x in syms])) for _ in range(n)]
        pts = [tuple(float(f"{v:.10f}") for v in p) for p in mols.spread_points(rng, n, 0.8)]
        if rng.random() < 0.2:
            pts[0] = (0.0, -0.0, 0.0)
        at = list(zip(els, pts))
        Z = np.array([el.charge(e) for e in els])
        charge = int(rng.integers(-2, 4))
        if Z.sum() - charge < 1:
            charge = 0
        unit = str(rng.choice(["bohr", "Bohr", "au", "AU", "angstrom", "Angstrom", "ANGSTROM"]))
        f = B.ANG if unit.lower() == "angstrom" else 1.0
        R = np.array(pts) * f
        mass = np.array([el.MASSES[z] for z in Z])
        ne = int(Z.sum() - charge)
        mols_ = []
        fd, path = tempfile.mkstemp(suffix=".xyz", dir=os.environ["VERIF_SCRATCH"])
        with os.fdopen(fd, "w") as fh:
            fh.write(xyz(rng, at))
        shells = [B.table(bs)[e.lower()] for e in els]
        tw = B.Twin([(e, r) for e, r in zip(els, R)], shells, charge)
        light = tw.nbf <= 40
        for text in (inline(rng, at), path):
            try:
                sq = make(text, charge, unit, None)
                sq.molecule._set_basis_set(bs)
                M = sq.molecule
            finally:
                pass
            ctx = {"text": text if ";" in text else open(path).read(), "unit": unit, "charge": charge, "basis": bs, "xyz": text == path}
            m.case(ctx, n > 1)
            # the conversion factor is published with ten digits
            m.close("coordinates", M.atom_coordinates, R, 1e-6 if f != 1 else 1e-12, **ctx)
            m.close("charges", M.atom_charges, Z.astype(float), 0.0, **ctx)
            m.true("electrons", M.number_electrons == ne and M.number_electrons_alpha + M.number_electrons_beta == ne and M.number_electrons_alpha - M.number_electrons_beta == ne % 2,
                   got=[M.number_electrons, M.number_electrons_alpha, M.number_electrons_beta], want=ne, **ctx)
            m.close("mass_center", M.center_of_mass, mass @ R / mass.sum(), 2e-3 * (1 + np.max(np.abs(R))), **ctx)
            m.close("repulsion", float(M.nuclear_repulsion), tw.enuc, 1e-6 * (1 + tw.enuc), **ctx)
            m.true("bf_count", M.number_bf == tw.nbf, got=M.number_bf, want=tw.nbf, **ctx)
            if light:
                p = rng.normal(size=(3, 3)) * 1.5
                m.close("functions", M.get_basis_function_amplitude(p), tw.amplitudes(p), 1e-5 * (1 + np.max(np.abs(tw.amplitudes(p)))), **ctx)
            mols_.append(M)
        a, b = mols_
        p = rng.normal(size=(2, 3))
        for what, x, y in (("coordinates", a.atom_coordinates, b.atom_coordinates), ("com", a.center_of_mass, b.center_of_mass), ("enuc", a.nuclear_repulsion, b.nuclear_repulsion)):
            m.close("same_molecule", x, y, 1e-9, what=what, **ctx)
        m.true("same_molecule", a.basis_function_labels == b.basis_function_labels and [x.atom_name for x in a.atoms] == [x.atom_name for x in b.atoms], what="labels", **ctx)
        # other unit, same molecule: write the bohr coordinates
        sq = make(inline(rng, list(zip(els, [tuple(r) for r in R]))), charge, "bohr")
        m.close("same_molecule", sq.molecule.atom_coordinates, a.atom_coordinates, 1e-6, what="unit", **ctx)
        perm = rng.permutation(n)
        sq = make(inline(rng, [at[i] for i in perm]), charge, unit)
        sq.molecule._set_basis_set(bs)
        c = sq.molecule
        m.close("permutation", c.atom_coordinates, a.atom_coordinates[perm], 1e-9, **ctx)
        m.close("permutation", c.center_of_mass, a.center_of_mass, 1e-9, **ctx)
        m.close("permutation", float(c.nuclear_repulsion), float(a.nuclear_repulsion), 1e-9 * (1 + a.nuclear_repulsion), **ctx)
        if light:
            nb = [sum((k[0] + 1) * (k[0] + 2) // 2 for k in sh) for sh in shells]
            off = np.concatenate([[0], np.cumsum(nb)])
            idx = np.concatenate([np.arange(off[i], off[i + 1]) for i in perm]).astype(int)
            m.close("permutation", c.get_basis_function_amplitude(p), a.get_basis_function_amplitude(p)[:, idx], 1e-9, 1e-9, **ctx)
        os.unlink(path)
    m.raises("rejected", ValueError, lambda: make("H 0 0 0; H 0 0 1", 0, str(rng.choice(["nm", "", "pm", "ang", "bohrs"]))))
    m.raises("rejected", ValueError, lambda: make("H 0 0 0", 0, "bohr"))
    m.raises("rejected", (ValueError, KeyError), lambda: make("Xx 0 0 0; H 0 0 1", 0, "bohr"))
    m.raises("rejected", (ValueError, KeyError), lambda: make("Xe 0 0 0; H 0 0 1", 0, "bohr", "4-31g"))
