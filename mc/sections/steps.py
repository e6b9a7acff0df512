"""Iterated calculations: molecular dynamics and geometry optimisation."""
from __future__ import annotations

import re

from mc.sections import Fixed, build, section
from mc.sections import forces as F
from mc.sections import scf as E
from mc.sections import setup as S
from mc.sections import spectra as X
from mc.sections.setup import v

EQ80, DA80 = "=" * 80, "-" * 80
MINIMISERS = ("LBFGS", "BFGS", "TPSD", "FIRE", "DMD", "DI")


# ---------------------------------------------------------------- contents of a step

def _scf(c, w):
    lines, cycles = E.scf_table(c, w, fermi=True, cycles=1, extras=False)
    return lines, [("append", ("scf",), cycles)]


def _energies(c, w):
    return E.energy_lines(c, w, (1, 2, 3))


def min_table(c, w, minim="LBFGS", rows=None):
    tail = f" <-- min {minim}"
    b = " +------------+-------------+-------------+-----------------+" + tail
    lines = [b, " |    Step    |   lambda    |   F.delta'  |    enthalpy     |" + tail, b]
    out = {}
    names = ("previous", "trial step", "line step", "quad step")
    for name in names[:c.pick("minrows", (2, 1, 3, 4)) if rows is None else rows]:
        a, f, h = w.F("lambda", 12, 6), w.F("fdelta", 12, 6), w.F("enthalpy", 16, 6, kinds=("neg", "pos", "zero", "negwide"))
        lines.append(f" | {name:^10} |{a} |{f} |{h} |" + tail)
        out[name] = {"lambda": a.v, "fdelta": f.v, "enthalpy": h.v}
    return [*lines, b, ""], [("append", ("minimisation",), out)]


CONV = (("dE/ion", "de_ion", "eV"), ("|F|max", "f_max", "eV/A"), ("|dR|max", "dr_max", "A"), ("Smax", "smax", "GPa"))


def conv_table(c, w, minim="LBFGS"):
    tail = f" <-- {minim}"
    b = " +-----------+-----------------+-----------------+------------+-----+" + tail
    lines = [b, " | Parameter |      value      |    tolerance    |    units   | OK? |" + tail, b]
    out = {}
    for name, k, u in CONV[:c.pick("convrows", (4, 3, 1))]:
        a, t = w.E("val", 15, 6, kinds=("pos", "zero", "neg", "tiny")), w.E("tol", 15, 6, kinds=("pos", "tiny"))
        ok = c.dev("ok", ("No ", "Yes"))
        lines.append(f" | {name:^9} | {a} | {t} | {u:>10} | {ok} |" + tail)
        out[k] = {"value": a.v, "tolerance": t.v, "converged": ok == "Yes"}
    return [*lines, b, ""], [("append", ("minimisation",), out)]


def _pos(c, w):
    lines, ops = S.positions(c, w)
    return ["                           -------------------------------",
            "                                     Cell Contents",
            "                           -------------------------------", "", *lines, ""], ops


def _tab(fn):
    return lambda c, w: _blank(fn(c, w))


def _blank(res):
    lines, ops = res
    if isinstance(lines, str):
        lines = lines.strip("\n").split("\n")
    return ["", *lines, ""], ops


PARTS = {
    "memory": _tab(S.memory_estimate), "cell": _tab(S.cell), "positions": _pos, "scf": _tab(_scf), "energies": _tab(_energies),
    "forces": _tab(F.forces), "stress": _tab(F.stress), "md": _tab(X.md_data), "min": _tab(min_table),
    "conv": _tab(conv_table), "spin": _tab(E.spin),
}


NEEDS = {"memory": {"SYS_INFO"}, "cell": {"CELL"}, "positions": {"POSITION"}, "scf": {"SCF"}, "energies": None,
         "forces": {"FORCE"}, "stress": {"STRESS"}, "md": {"MD", "MD_SUMMARY"}, "min": {"GEOM_OPT"}, "conv": {"GEOM_OPT"},
         "spin": {"SCF", "SPIN"}}

ALL_KINDS = frozenset(
    "BS CELL CHEM_SHIELDING DELTA_SCF DIPOLE ELASTIC ELF FINAL_CONFIG FORCE GEOM_OPT MD MD_SUMMARY OPTICS PARAMETERS PHONON "
    "POLARISATION POPN_ANALYSIS POSITION PSPOT SCF SOLVATION SPECIES_PROPS SPIN STRESS SYMMETRIES SYS_INFO TDDFT "
    "TEST_EXTRA_DATA THERMODYNAMICS TSS".split())
IN_STEPS = ALL_KINDS - {"SCF", "TEST_EXTRA_DATA"}  # kinds a step of a run is given with once steps are selected


def contents(w, names, i=0, kinds=ALL_KINDS):
    """Lines and operations of the named parts (internal structure fixed to variant `i`) for the kinds selected."""
    lines, ops = [], []
    for n in names:
        if n[0] == "@":  # any section of the main output
            from mc import castep
            a, b = castep.fixed(n[1:], w, i, kinds)
            lines += ["", *a, ""]
            ops += b
            continue
        a, b = PARTS[n](Fixed(i), w)
        lines += a
        if NEEDS[n] is None or NEEDS[n] & kinds:
            ops += b
    return lines, ops


def in_step_sections(run):
    """Sections that can stand within a step of `run`: no steps or runs themselves, and no rule that ends an iteration."""
    from mc import castep
    from mc.sections import SECTIONS
    never = {"build_info", "md", "geom", "final_configuration", "geom_enthalpy", "kpoints_list", "berry_phase_verbose", "md_data" if run == "geom" else ""}
    return [n for n in SECTIONS if n not in never and not (run == "geom" and any(re.match(r"\s*=+\s*$", x) for x in castep.fixed(n)[0]))]


def alias(data):
    out = dict(data)
    for old, new in (("initial_positions", "positions"), ("initial_cell", "cell")):
        if old in out:
            out[new] = out.pop(old)
    return out


# ---------------------------------------------------------------- molecular dynamics

def md_run(w, steps, step0=(), i=0, between=(), first=1, kinds=ALL_KINDS):
    """`steps`: part names of each step; `between`: parts printed between steps. Returns lines, ops."""
    lines, ops, inner = [], [], IN_STEPS | kinds
    if step0 is not None:
        a, b = contents(w, step0, i, inner)
        lines += [" Starting MD", *a, ""]
        if "MD" in kinds:
            ops.append(("append", ("md",), alias(build(b))))
        if not steps:
            lines.append(" " + "=" * 20)
    for n, names in enumerate(steps):
        a, b = contents(w, names, i, inner)
        lines += [EQ80, f" Starting MD iteration {n + first:10d} ...", EQ80, *a, DA80,
                  f" ... finished MD iteration {n + first:10d}"]
        data = alias(build(b))
        mem = data.pop("memory_estimate", None)
        if mem is not None and "MD" in kinds:
            ops.append(("lift", ("memory_estimate",), mem))
        if "MD" in kinds:
            ops.append(("append", ("md",), data))
        if n + 1 < len(steps):
            lines.append("")
            a, b = contents(w, between, i, kinds)
            lines += a
            ops += b
    lines.append(" Finished MD")
    return lines, ops


@section("MD", "C24")
def md(c, w, kinds=ALL_KINDS):
    i = 0 if isinstance(c, Fixed) and not c.i else 1 if isinstance(c, Fixed) else 0
    which = c.pick("mdsteps", (((), (("cell", "positions", "energies", "forces", "stress", "md"), ("positions", "energies", "forces", "md"))),
                               (None, (("positions", "md"),)),
                               (("forces", "md"), (("energies", "md"),))))
    return md_run(w, which[1], which[0], i, kinds=kinds)


# ---------------------------------------------------------------- geometry optimisation

def finished(w, minim, n):
    h = w.E("enthalpy", 16, 8, kinds=("neg", "pos", "zero", "huge"))
    return [f" {minim}: finished iteration {n:5d} with enthalpy= {h.strip():>16} eV", ""], \
        [("append", ("enthalpy",), h.v), ("update", ("geom_opt",), {})]


def trial(w, minim, n):
    x = w.F("lambda", 10, 6, kinds=("pos", "zero"))
    return [DA80, f" {minim}: starting iteration {n:9d} with trial guess (lambda={x})", DA80, ""], \
        [("append", ("geom_opt", "trial"), x.v)]


def geom_run(w, steps, minim="LBFGS", i=0, pre=("conv",), zeroth=True, kinds=ALL_KINDS):
    """Iterations of a minimiser; each step is a list of part names, "trial" or "enthalpy"."""
    lines, ops = [], []
    if zeroth:
        a, b = finished(w, minim, 0)
        c2, d = contents(w, pre, i, kinds)
        lines += a + c2
        ops += (b if "GEOM_OPT" in kinds else []) + d
    for n, names in enumerate(steps):
        inner_l, inner = [], []
        for name in names:
            a, b = (trial(w, minim, n + 1) if name == "trial" else finished(w, minim, n + 1) if name == "enthalpy"
                    else contents(w, (name,), i, IN_STEPS | kinds))
            inner_l += a
            inner += b
        lines += [EQ80, f" Starting {minim} iteration {n + 1:10d} ...", EQ80, "", *inner_l]
        if "GEOM_OPT" not in kinds:
            continue
        if not n:
            ops.append(("geom_start", ("geom_opt",), None))
        ops.append(("append", ("geom_opt", "iterations"), alias(build(inner))))
    if steps:
        lines.append(f" Finished {minim}" if i % 2 else EQ80)
    return lines, ops


def final_config(w, minim="LBFGS", i=0, parts=("cell", "atoms"), extra=("bulk modulus",)):
    c = Fixed(i)
    lines, out = [f" {minim}: Geometry optimization completed successfully.", "", EQ80,
                  f" {minim}: Final Configuration:", EQ80, ""], {}
    if "cell" in parts:
        a, b = S.cell(c, w)
        lines += list(a)
        out["cell"] = b[0][2]
    if "atoms" in parts:
        a, b = _pos(c, w)
        lines += a
        out["atoms"] = b[0][2]
    h = w.E("finenth", 16, 8, kinds=("neg", "pos", "zero"))
    lines += ["", f" {minim}: Final Enthalpy     = {h.strip():>16} eV"]
    out["final_enthalpy"] = h.v
    lines.append(f" {minim}: Final <frequency>  unchanged from initial value")
    for e in extra:
        x = w.F("bulk", 13, 5, kinds=("pos", "wide", "neg"))
        lines.append(f" {minim}: Final {e} ={x} GPa")
        out["final_" + e.replace(" ", "_")] = x.v
    return lines, [("set", ("geom_opt", "final_configuration"), out)]


@section("GEOM_OPT", "C24")
def geom(c, w, kinds=ALL_KINDS):
    which = c.pick("geomsteps", ((("min", "trial", "cell", "positions", "energies", "forces", "stress", "min", "enthalpy", "conv"),
                                  ("min", "positions", "forces", "enthalpy")), (("enthalpy",),)))
    m = c.pick("minim", MINIMISERS[:4])
    return geom_run(w, which, m, getattr(c, "i", 0) % 2, kinds=kinds)


@section("GEOM_OPT|FINAL_CONFIG", "C24")
def final_configuration(c, w):
    return final_config(w, c.pick("minim", MINIMISERS), 0, c.pick("parts", (("cell", "atoms"), ("atoms",))),
                        c.pick("extra", (("bulk modulus",), ())))


@section("GEOM_OPT", "C24")
def geom_min_table(c, w):
    return min_table(c, w, c.pick("minim", MINIMISERS))


@section("GEOM_OPT", "C24")
def geom_conv_table(c, w):
    return conv_table(c, w, c.pick("minim", MINIMISERS))


@section("GEOM_OPT", "C24")
def geom_enthalpy(c, w):
    return finished(w, c.pick("minim", MINIMISERS), c.pick("it", (0, 12)))


@section("GEOM_OPT", "C24")
def geom_trial(c, w):
    return trial(w, c.pick("minim", ("LBFGS", "BFGS", "FIRE")), c.pick("it", (1, 100)))


# ---------------------------------------------------------------- delocalised internals

@section("GEOM_OPT", "C24")
def internal_constraints(c, w):
    lines, out = ["  INTERNAL CONSTRAINTS", " #  Type     Target    Actual           Definition", ""], []
    types = ("Bond", "Angle", "Torsion")
    for i in range(c.pick("ncons", (3, 0, 1, 5))):
        typ = types[i % 3]
        sat = c.dev("satisfied", (i % 2 == 0, i % 2 == 1))
        x = w.F("target", 9, 3, kinds=("pos", "neg", "zero", "wide"))
        actual = "Satisfied" if sat else w.F("actual", 9, 3, kinds=("pos", "neg", "zero"))
        cons, defs = {}, []
        for j in range(2 + i % 3):
            w.k += 1
            cell_ = tuple(c.dev("cellidx", ((w.k + j) % 2, -1, 0)) if k == j % 3 else (j + k) % 2 for k in range(3))
            atom = 2 + (w.k * 3 + j) % (8 if i < 4 else 90)
            while atom in cons:
                atom += 1
            cons[atom] = cell_
            defs.append(f"{atom:2d} (" + "".join(f"{q:2d}" for q in cell_) + ")")
        lines.append(f"{i + 1:3d} {typ:<7}{x} {actual:<10} " + "  ".join(defs))
        out.append({"type": typ, "target": None if sat else x.v, "current": x.v if sat else actual.v, "satisfied": sat,
                    "constraints": cons})
    return [*lines, ""], [("set", ("internal_constraints",), out)]


@section("GEOM_OPT", "C24")
def deloc_table(c, w):
    lines, cm, out = ["Message: Generating delocalized internals"], {}, {}
    for i in range(c.pick("ncons", (2, 0, 1, 3))):
        x = w.I("prim", 5, kinds=("pos", "wide", "full"))
        lines.append(f" constraint # {i + 1:5d} is a primitive # {x}")
        cm[i + 1] = x.v
    lines.append("")
    for t in ("bonds", "angles", "dihedrals", "internals"):
        x = w.I("num", 8, kinds=("pos", "zero", "wide", "full"))
        lines.append(f"Total number of primitive {t + ':':<15}{x}")
        out["num_" + t] = x.v
    lines += ["", "Message: Generation of delocalized internals is successful"]
    return lines, [("update", ("delocalised_internal",), {"constraint_mapping": cm, **out})]


@section("GEOM_OPT", "C24")
def deloc_space(c, w):
    xs = [w.I("n", 6, kinds=("pos", "zero", "wide", "full")) for _ in range(3)]
    return [f" The size of active space is :{xs[0]}", f" There are : {xs[1]}  degrees of freedom",
            f" There are : {xs[2]}  primitive internals", ""], \
        [("update", ("delocalised_internal",), {"active_space_size": xs[0].v, "num_dof": xs[1].v,
                                                "num_primitive_internals": xs[2].v})]
