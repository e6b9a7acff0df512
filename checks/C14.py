"""Magnetic-resonance files."""
from castep_outputs import parse_magres_file

from mc.gen import Writer, check
from mc.sections import ELEMENTS

S3 = ("pos", "neg", "zero", "tiny", "huge")
ALIASES = {"ms": "magnetic_resonance_shielding", "efg": "electric_field_gradient", "efg_local": "local_electric_field_gradient",
           "efg_nonlocal": "nonlocal_electric_field_gradient", "isc_fc": "j_coupling_fc", "isc_orbital_p": "j_coupling_orbital_p",
           "isc_orbital_d": "j_coupling_orbital_d", "isc_spin": "j_coupling_spin", "isc": "j_coupling_k_total"}
SINGLE = ("ms", "efg", "efg_local", "efg_nonlocal")
PAIR = ("isc", "isc_fc", "isc_spin", "isc_orbital_p", "isc_orbital_d")
UNITS = {"ms": "ppm", "efg": "au", "isc": "10^19.T^2.J^-1"}
ATOMS = {"one": [("H", "H", 1)],
         "two": [("H", "H", 1), ("C", "C", 1)],
         "labels": [("H", "H1", 1), ("H", "H1", 2), ("C", "Ca", 1)],
         "many": [("C", "C", 9), ("C", "C", 10), ("O", "O", 1), ("C", "C", 100)]}


def calc_block(c, version):
    e = {"code": "CASTEP", "code_version": version, "code_hgversion": "81dc23eb6+  LDA-fix  Tue May 24 15:32:31 2022 +0100",
         "code_platform": "linux_x86_64_gfortran", "name": "h", "xcfunctional": "PBE", "cutoffenergy": "200.00000000 eV",
         "pspot": "H 1|0.8|0.8|0.6|2|6|8|10(qc=6)", "kpoint_mp_grid": "1 1 1",
         "kpoint_mp_offset": "0.25000000      0.25000000      0.25000000"}
    lines = ["[calculation]"]
    for k, v in e.items():
        lines.append(f"calc_{k}  {v}" if k == "code_version" else f"calc_{k} {v}")
        if k == "name":
            lines.append("calc_comment ")
    return [*lines, "[/calculation]"], e


def atoms_block(c, w, atoms, nsym):
    v = [w.E("lattice", 25, 16, kinds=("pos", "neg", "zero", "tiny"), style="E{s}{e:02d}" ) for _ in range(9)]
    lines = ["[atoms]", "units lattice Angstrom", "lattice " + "".join(v), "", "units atom Angstrom"]
    e = {"units": {"lattice": "Angstrom", "atom": "Angstrom"}, "lattice": [x.v for x in v], "coords": {}}
    lines += [f"symmetry {'-' * (i % 2)}x,{'-' * (i // 2 % 2)}y,z{'+1/2' * (i > 1)}" for i in range(nsym)]
    for spec, lab, i in atoms:
        p = [w.E("pos", 25, 16, kinds=("pos", "neg", "zero"), style="E{s}{e:02d}") for _ in range(3)]
        lines.append(f"atom {spec:<5} {lab:>4} {i:>4} " + "".join(p))
        e["coords"][lab, i] = [x.v for x in p]
    return [*lines, "[/atoms]"], e


def magres_block(c, w, atoms, tags, width=0, blank=False):
    lines, e = ["[magres]"], {}
    for t in tags:
        u = t.split("_")[0]
        if t in UNITS:
            lines.append(f"units {u} {UNITS[u]}")
            e.setdefault("units", {})[u] = UNITS[u]
        if blank:
            lines.append("")
        for spec, lab, i in atoms:
            for other in (atoms if t in PAIR else [None]):
                if other and other[1:] == (lab, i) and len(atoms) > 1:
                    continue
                v = [w.E(t, 25, 16, kinds=S3, style="E{s}{e:02d}") for _ in range(9)]
                glued = width and t in SINGLE and len(str(i)) == width
                lines.append(f"{t} {lab}{'' if glued else ' ' * 4}{i}" + (f" {other[1]}    {other[2]}" if other else "") + " " + "".join(v))
                key = ((lab, i), tuple(other[1:])) if other else (lab, i)
                e.setdefault(t, {})[key] = [x.v for x in v]
        if t in e:
            e[ALIASES[t]] = e[t]
    return [*lines, "[/magres]"], e


def old_block(c, w, atoms, coords, kinds):
    lines, info, tens = ["[magres_old]", ""], {}, []
    for spec, lab, i in atoms:
        n = f"{lab:<4}  {i:>4}"
        x = coords.get((lab, i), (0.0, 0.0, 0.0))
        lines += ["============", f"Atom: {n}", "============", n + " Coordinates" + "".join(f"{v:11.3f}" for v in x) + "   A", "",
                  "TOTAL Shielding Tensor", ""]
        t = [[w.F("total", 14, 4, kinds=kinds) for _ in range(3)] for _ in range(3)]
        lines += ["      " + "".join(r) for r in t] + [""]
        tens.append([[x.v for x in r] for r in t])
        e = info[lab, i] = {"eigvenvalue": [], "eigvenvector": []}
        if (lab, i) in coords:
            e["coords"] = coords[lab, i]
        for ax in ("xx", "yy", "zz"):
            v = w.F("eigval", 12, 4, kinds=kinds)
            u = [w.F("eigvec", 12, 4, kinds=kinds) for _ in range(3)]
            lines += [f"{n} Eigenvalue  sigma_{ax} {v} (ppm)", f"{n} Eigenvector sigma_{ax} {''.join(u)}"]
            e["eigvenvalue"].append(v.v)
            e["eigvenvector"].append([x.v for x in u])
        lines.append("")
        for name in ("Isotropic", "Anisotropy", "Asymmetry"):
            v = w.F(name, 12, 4, kinds=kinds)
            lines.append(f"{n} {name}: {v}" + (" (ppm)" if name != "Asymmetry" else ""))
            e[name.lower()] = v.v
        lines.append("")
    return [*lines, "[/magres_old]"], info, tens


def build(c, w, parts, atoms, tags, version="23.1", width=0, nsym=1, blank=False, gap=True, kinds=("pos", "neg", "zero")):
    out, e, known = {}, {}, {}
    if "calculation" in parts:
        out["calculation"], e["calc"] = calc_block(c, version)
    coords = {}
    if "atoms" in parts:
        out["atoms"], e["atoms"] = atoms_block(c, w, atoms, nsym)
        coords = e["atoms"]["coords"]
    if "magres" in parts:
        out["magres"], e["magres"] = magres_block(c, w, atoms, tags, width, blank)
    if "magres_old" in parts:
        out["magres_old"], e["atom_info"], tens = old_block(c, w, atoms, coords, kinds)
        e["total_shielding"] = tens[0] if len(tens) == 1 else tens
        if len(tens) > 1:
            known["C14-total-shielding"] = {**e, "total_shielding": tens[-1]}
    lines = ["#$magres-abinitio-v1.0", "# See http://www.ccpnc.ac.uk/pmwiki.php/CCPNC/Fileformat"]
    for p in parts:
        lines += ([""] if gap else []) + out[p]
    return "\n".join(lines) + "\n", e, known


PARTS = ("calculation", "atoms", "magres", "magres_old")


def order(c):
    """Every subset of the sections in every order."""
    parts = c.perm("section", c.subset("has", PARTS))
    atoms = ATOMS[c.pick("atoms", ("one", "labels"))]
    text, e, known = build(c, Writer(c, kinds=("pos",)), parts, atoms, ("ms", "efg"), gap=c.flag("gap"), blank=c.flag("blank lines"))
    check(parse_magres_file, text, e, known)
    return f"{len(parts)} sections"


def tensors(c):
    """Every subset of the tensor kinds for each set of atoms."""
    tags = c.subset("has", SINGLE + PAIR)
    if c.flag("reversed"):
        tags = tags[::-1]
    atoms = ATOMS[c.pick("atoms", ATOMS)]
    text, e, known = build(c, Writer(c, kinds=("pos",)), ("calculation", "atoms", "magres"), atoms, tags, nsym=c.pick("nsym", (0, 2)))
    check(parse_magres_file, text, e, known)


def glued(c):
    """Atom numbers filling their column touch the label; the width depends on the version of CASTEP."""
    version, width = c.pick("version", (("19.11", 3), ("8.0", 3), ("18.1", 3), ("20.1", 3), ("20.11", 3), ("21.11", 3), ("22.1", 5), ("22.11", 5), ("23.1", 5), ("25.12", 5)))
    lab = c.pick("label", ("H", "Si", "Cx1"))
    first = int("1" * width)
    atoms = [("H", lab, 1), ("H", lab, first), ("H", lab, 10 ** width - 1), ("H", lab, 10 ** (width - 1))]
    tags = c.pick("tags", (("ms",), ("efg",), ("ms", "efg", "efg_local", "efg_nonlocal")))
    parts = c.pick("parts", (("calculation", "atoms", "magres"), ("magres", "calculation")))
    text, e, known = build(c, Writer(c, kinds=("pos",)), parts, atoms, tags, version, width)
    check(parse_magres_file, text, e, known)


def values(c):
    tags = c.pick("tags", (("ms", "efg"), ("isc",), ("isc_fc", "isc_orbital_p")))
    text, e, known = build(c, Writer(c), ("calculation", "atoms", "magres", "magres_old"), ATOMS["two"] if tags[0] != "ms" else ATOMS["one"], tags)
    check(parse_magres_file, text, e, known)


def large(c):
    """Many atoms and atom pairs."""
    atoms = c.pick("atoms", ([("C", "C", i) for i in range(1, 130)], [(s, s, 1) for s in ELEMENTS], [("H", f"H{i % 3}", i // 3 + 1) for i in range(60)]))
    tags = c.pick("tags", (("ms", "efg"), ("isc",), ("isc_fc", "ms", "isc_spin")))
    if len(atoms) > 60 and tags[0] != "ms":
        atoms = atoms[-25:]
    parts = c.pick("parts", (PARTS, PARTS[:3], PARTS[::-1]))
    text, e, known = build(c, Writer(c, kinds=("pos",)), parts, atoms, tags, nsym=c.pick("nsym", (0, 48)))
    check(parse_magres_file, text, e, known)


MODELS = [("large", large, 0, 0), ("order", order, 0, 0), ("tensors", tensors, 0, 0), ("glued", glued, 0, 0), ("values", values, 1, 2)]
