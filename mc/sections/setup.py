"""Run set-up report: build information, parameters, cell, species, positions, symmetry."""
from __future__ import annotations

from mc.gen import Num
from mc.sections import section, nth

S = frozenset


def v(*nums):
    return tuple(n.v for n in nums)


LABELS = ("Si", "Mn", "O", "H")


def atoms(c, n=None, names=("Mn", "O:tag", "H [lab]", "Si")):
    """Consecutive atoms: species may have several, labelled ones count within their label."""
    if n is None:
        n = c.pick("natoms", (3, 1, 2, 4))
    style = c.pick("labels", ("plain", "mixed") if not c.deep else ("plain", "mixed", "same", "wide"))
    if style == "plain":
        out = [("Mn", 1), ("Mn", 2), ("O", 1), ("H", 1)]
    elif style == "mixed":
        out = [(names[1], 1), (names[2], 1), ("Mn", 1), (names[1], 2)]
    elif style == "same":
        out = [("Fe", i) for i in range(1, 5)]
    else:
        out = [("Si", i) for i in (99, 100, 999, 1000)]
    out += [("Co", i) for i in range(1, n - 3)]
    return out[:n]


# ---------------------------------------------------------------- system information

@section("SYS_INFO", "C26")
def build_info(c, w):
    extra = c.pick("build", (3, 0, 1, 5))
    keys = [("Compiler: GNU Fortran 12.2.1; Optimisation: FAST", "compiler", "GNU Fortran 12.2.1; Optimisation: FAST"),
            ("Comms   : Open MPI v4.1.4", "comms", "Open MPI v4.1.4"),
            ("FFT Lib : fftw3 version fftw-3.3.10-sse2-avx", "fft_lib", "fftw3 version fftw-3.3.10-sse2-avx"),
            ("MATHLIBS: blas (LAPACK version 3.11.0)", "mathlibs", "blas (LAPACK version 3.11.0)"),
            ("Fundamental constants values: CODATA 2018", "fundamental_constants_values", "CODATA 2018")]
    w.k += 1
    day = 10 + w.k % 20
    lines = [f" Compiled for  GNU 12.2.1 on {day}-04-2023 15:14:41",
             " from code version 2c6c6d262 update-jenkins Fri Apr 14 15:13:22 2023 +0100"]
    info = {"summary": f"Compiled for GNU 12.2.1 on {day}-04-2023 15:14:41 from code version 2c6c6d262 "
                       "update-jenkins Fri Apr 14 15:13:22 2023 +0100"}
    for text, k, val in keys[:extra]:
        lines.append(" " + text)
        info[k] = val
    return [*lines, ""], [("set", ("build_info",), info)]


@section("SYS_INFO", "C26")
def time_started(c, w):
    w.k += 1
    t = f"Thu, 19 Nov 2026 0{w.k % 10}:42:45 +0000"
    return [f" Run started: {t}"], [("set", ("time_started",), t)]


@section("SYS_INFO", "C26")
def finalisation(c, w):
    lines, out = [], {}
    n = c.pick("nfin", (5, 1, 3))
    keys = (("Initialisation time =", "initialisation_time", "s"), ("Calculation time    =", "calculation_time", "s"),
            ("Finalisation time   =", "finalisation_time", "s"), ("Total time          =", "total_time", "s"),
            ("Peak Memory Use     =", "peak_memory_use", "kB"))
    for text, k, u in keys[:n]:
        x = w.I("mem", 7, kinds=("pos", "wide", "zero")) if u == "kB" else w.F("time", 10, 2, kinds=("pos", "wide", "zero"))
        lines.append(f"{text}{x} {u}")
        out[k] = float(x)
    return [*lines, " "], [("set", (k,), x) for k, x in out.items()]


@section("SYS_INFO", "C26")
def parallel_efficiency(c, w):
    x = w.I("eff", 0, hi=99, kinds=("pos",))
    word = c.pick("rating", ("Satisfactory", "Very good"))
    return [f"Overall parallel efficiency rating: {word} ({x}%)"], [("set", ("parallel_efficiency",), float(x.v))]


@section("SYS_INFO", "C26")
def continuation(c, w):
    w.k += 1
    f = f"seed{w.k}.check"
    return [f"Reading continuation data from model file {f}"], [("set", ("continuation",), f)]


@section("SYS_INFO", "C26")
def warning_dash(c, w):
    w.k += 1
    n = c.pick("warnlines", (1, 0, 2))
    head = c.pick("warnhead", ("WARNING - requested pressure", "Warning - deprecated keyword"))
    lines = [f" {head} {w.k}"]
    text = f"{head} {w.k}"
    for i in range(n):
        lines.append(f"         - proceed with caution {i} ...")
        text += f" - proceed with caution {i} ..."
    return lines, [("append", ("warning",), text)]


@section("SYS_INFO", "C26")
def warning_block(c, w):
    w.k += 1
    n = c.pick("warnlines", (2, 1))
    q = "?" * 70
    body = [f"                     Warning in secondd {w.k}"] + [f"    Failed to identify {i} eigenvectors" for i in range(n)]
    return [q, *body, q + "?"], [("append", ("warning",), " ".join(x.strip() for x in body))]


@section("SYS_INFO", "C26")
def warning_prefixed(c, w):
    w.k += 1
    return [f"TS: Warning - a minimum between Reactant-TS was found for image   {w.k}", ""], \
        [("append", ("warning",), f"TS: Warning - a minimum between Reactant-TS was found for image   {w.k}")]


@section("SYS_INFO", "C26")
def memory_estimate(c, w):
    n = c.pick("nmem", (3, 1, 0))
    keys = (("BLAS internal memory storage", "blas_internal_memory_storage"),
            ("Model and support data", "model_and_support_data"),
            ("Force calculation requirements", "force_calculation_requirements"))
    task = c.pick("memtask", ("PER PROCESS", "PER PROCESS FOR MD"))
    lines = [f"+---------------- MEMORY AND SCRATCH DISK ESTIMATES {task} --------------+",
             "|                                                     Memory          Disk    |"]
    out = {}
    for text, k in keys[:n]:
        a, b = w.F("mem", 10, 1, kinds=("pos", "zero", "wide")), w.F("disk", 12, 1, kinds=("pos", "zero", "wide"))
        lines.append(f"| {text:<47}{a} MB {b} MB |")
        out[k] = {"memory": a.v, "disk": b.v}
    lines += ["|                                               ----------------------------- |",
              "| Requirements will fluctuate during execution and may exceed these estimates |",
              "+-----------------------------------------------------------------------------+"]
    return lines, [("append", ("memory_estimate",), out)]


# ---------------------------------------------------------------- parameters

@section("PARAMETERS", "C26")
def title(c, w):
    w.k += 1
    t = c.pick("title", (f"CASTEP calculation for SSEC{w.k}", f"title: {w.k} = 3.5", f"Si{w.k}"))
    return ["************************************ Title ************************************", " " + t, ""], \
        [("set", ("title",), t)]


GROUPS = ("General", "Exchange-Correlation", "Pseudopotential", "Basis Set", "Electronic Minimization")


def option(c, w, i):
    kind = c.pick("opt", ("unit", "text", "int", "float", "sci", "bool", "colon", "file"))
    w.k += 1
    name = f"opt name-{w.k} in (x)"
    if kind == "text":
        val = c.dev("text", ("normal  (1)", "on", "none", "Perdew Wang (1991)", "not 1", "P3", ""))
        return f" {name:<47}: {val}", name, " ".join(val.split())
    if kind == "int":
        x = w.I("iopt", 10, kinds=("pos", "neg", "zero", "wide"))
        return f" {name:<47}: {x}", name, x.v
    if kind == "float":
        x = w.F("fopt", 10, 4, kinds=("pos", "neg", "zero"))
        return f" {name:<47}: {x}", name, x.v
    if kind == "unit":
        x = w.F("uopt", 10, 4, kinds=("pos", "neg", "zero"))
        u = c.dev("unit", ("eV", "eV/A", "1/A", "A**3", "GPa"))
        return f" {name:<47}: {x}   {u}", name, (x.v, u)
    if kind == "sci":
        x = w.E("sopt", 13, 6)
        return f" {name:<47}: {x}   eV", name, (x.v, "eV")
    if kind == "bool":
        t = c.dev("logic", ("on", "True", "false", "off"))
        return f" {name:<47}: {t}", name, t
    if kind == "file":
        return f" {name:<47}: beta-mn.check", name, "beta-mn.check"
    x = w.F("copt", 10, 4, kinds=("pos", "neg"))
    return f" {name} ratio a:b : {x}", f"{name} ratio a b", x.v


@section("PARAMETERS", "C26")
def options(c, w):
    ng = c.pick("ngroups", (2, 1, 3))
    lines, out = [], {}
    for g in range(ng):
        lines += [f" ***************************** {nth(GROUPS, g, lambda j: "Extra " + nth((), j))} Parameters ******************************", " "]
        grp = {}
        for i in range(c.pick("nopt", (2, 1)) if g < 2 else 1):
            line, k, val = option(c, w, i)
            lines.append(line)
            grp[k] = val
        lines.append(" ")
        out[nth(GROUPS, g, lambda j: "Extra " + nth((), j)).lower()] = grp
    if c.pick("outunits", (True, False)):
        u = c.dev("ounit", ("A", "eV/A**3", "1/A"))
        at = lines.index(" ", 2)
        lines.insert(at + 1 if at > 1 else 2, f" output         length unit                     : {u}")
        out["output_units"] = {"length": u}
    if c.pick("cdft", (False, True)):
        x = w.F("width", 10, 4)
        lines += [" ************************* Constrained DFT - deltaSCF **************************", " ",
                  f" deltaSCF smearing width                        : {x}   eV", " "]
        out["constrained dft - deltascf"] = {"deltaSCF smearing width": (x.v, "eV")}
    if c.pick("devel", (True, False)):
        x = w.F("dw", 6, 4, kinds=("pos",))
        lines += [" ******************************* Developer Code ********************************", " ",
                  " CALCULATE_XRD_SF:", " 0 0 0", " 1 1 1", " :ENDCALCULATE_XRD_SF", " "]
        out["devel_code"] = {"calculate_xrd_sf": {"data": [0, 0, 0, 1, 1, 1]}}
    lines.append(" *******************************************************************************")
    return lines, [("set", ("options",), out)]


@section("PARAMETERS", "C26")
def dftd(c, w):
    npar = c.pick("npar", (2, 0, 3))
    nsp = c.pick("nspec", (2, 1, 0))
    scheme = c.pick("scheme", ("G06", "XDM"))
    lines = ["                                --------------------", "                                  DFT-D parameters",
             "                                --------------------", " ",
             f"                          Dispersion-correction scheme : {scheme}"]
    out = {"dispersion_correction_scheme": scheme, "species": {}}
    for i in range(npar):
        x = w.F("par", 11, 6, kinds=("pos", "neg", "zero"))
        name = nth(("s6", "d ", "a1"), i, "p{}".format)
        lines.append(f"                        Parameter {name} :{x} (default)")
        out[f"parameter_{name.strip()}"] = x.v
    lines.append("")
    if nsp:
        b = "        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
        lines += [b, "        x              Atomic DFT-D parameters                             x",
                  "        x  Species      C6            R0                                   x",
                  "        x               eV A^6        Ang                                  x",
                  "        x------------------------------------------------------------------x"]
        for i in range(nsp):
            a, r = w.F("c6", 13, 4, kinds=("pos", "zero", "wide")), w.F("r0", 13, 4, kinds=("pos", "zero"))
            sp = nth(("H", "Mn:tag"), i)
            lines.append(f"        x  {sp:<8}{a}{r}   (default)                   x")
            out["species"][sp] = {"c6": a.v, "r0": r.v}
        lines += [b, ""]
    else:
        lines.append("")
    return lines, [("set", ("dftd",), out)]


@section("PARAMETERS", "C26")
def kpoints(c, w):
    lines = ["                           -------------------------------", "                              k-Points For BZ Sampling",
             "                           -------------------------------"]
    out = {}
    if c.pick("mp", (True, False)):
        a = [w.I("mp", 3, hi=9, kinds=("pos", "wide")) for _ in range(3)]
        o = [w.F("off", 8, 3, lo=-1, hi=1, kinds=("pos", "neg", "zero")) for _ in range(3)]
        lines += ["                       MP grid size for SCF calculation is" + "".join(a),
                  "                            with an offset of" + "".join(o)]
        out["kpoint_mp_grid"] = v(*a)
        out["kpoint_mp_offset"] = v(*o)
    n = w.I("nk", 14)
    lines += [f"                       Number of kpoints used ={n}", " "]
    out["num_kpoints"] = n.v
    return lines, [("set", ("k-points",), out)]


@section("PARAMETERS", "C26")
def kpoints_list(c, w):
    n = c.pick("nk", (2, 1, 12))
    b = "             +++++++++++++++++++++++++++++++++++++++++++++++++++++++"
    lines = [b, "             +  Number       Fractional coordinates        Weight  +",
             "             +-----------------------------------------------------+"]
    pts = []
    for i in range(n):
        q = [w.F("q", 11, 6, hi=1, kinds=("pos", "neg", "zero")) for _ in range(3)]
        wt = w.F("wt", 12, 7, hi=1, kinds=("pos",))
        lines.append(f"             +{i + 1:6d}{q[0]}{q[1]}{q[2]}{wt}  +")
        pts.append({"qpt": v(*q), "weight": wt.v})
    return [*lines, b], [
        ("set", ("k-points",), {"points": pts, "num_kpoints": n},
         {"points": [{**p, "qpt": (p["qpt"][0], p["qpt"][1], p["qpt"][0])} for p in pts], "num_kpoints": n})]


@section("PARAMETERS", "C26")
def applied_field(c, w):
    e = [w.F("ef", 10, 5) for _ in range(3)]
    return ["                          Applied Electric Field (eV/A/e)", "                " + "".join(e)], \
        [("set", ("applied_field",), v(*e))]


@section("PARAMETERS", "C26")
def target_stress(c, w):
    s = [w.F("st", 10, 5) for _ in range(6)]
    return ["                         External pressure/stress (GPa)",
            "                         " + "".join(s[:3]), "                                   " + "".join(s[3:5]),
            "                                             " + s[5]], \
        [("append", ("target_stress",), list(v(*s)))]


@section("PARAMETERS", "C26")
def initial_spins(c, w):
    b = "         xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
    lines = [b, "         |  Element    Atom         Initial            Initial magnetic       |",
             "         |            Number    spin polarization        moment (uB)     Fix? |",
             "         |--------------------------------------------------------------------|"]
    out = {}
    fixed = c.pick("fix", (0, 1, 2))
    for sp, i in atoms(c):
        a, m = w.F("spin", 17, 6), w.F("mom", 19, 3)
        fx = "FT"[(i + fixed) % 2] if fixed < 2 else "T"
        lines.append(f"         | {sp:<8}{i:8d}{a}{m}       {fx}       |")
        out[(sp, i)] = {"spin": a.v, "magmom": m.v, "fix": fx == "T"}
    return [*lines, b], [("set", ("initial_spins",), out)]


# ---------------------------------------------------------------- cell and positions

@section("CELL", "C26")
def cell(c, w):
    lines = ["                           -------------------------------", "                                      Unit Cell",
             "                           -------------------------------",
             "        Real Lattice(A)                      Reciprocal Lattice(1/A)"]
    real, recip, par, ang = [], [], [], []
    for _ in range(3):
        a = [w.F("real", 14, 7) for _ in range(3)]
        r = [w.F("recip", 14, 9) for _ in range(3)]
        lines.append("".join(a) + "     " + "".join(r))
        real.append(v(*a))
        recip.append(v(*r))
    lines += [" ", "                       Lattice parameters(A)       Cell Angles"]
    for i, (x, n) in enumerate(zip("abc", ("alpha", "beta ", "gamma"))):
        a, g = w.F("abc", 14, 6, kinds=("pos", "wide")), w.F("ang", 12, 6, kinds=("pos", "wide"))
        lines.append(f"                    {x} ={a}          {n} ={g}")
        par.append(a.v)
        ang.append(g.v)
    vol, da, dg = w.F("vol", 21, 6, kinds=("pos", "wide")), w.F("rho", 21, 6, kinds=("pos", "wide")), w.F("rhog", 21, 6, kinds=("pos", "wide"))
    lines += [" ", f"                       Current cell volume = {vol}       A**3",
              f"                                   density = {da}   AMU/A**3",
              f"                                           = {dg}     g/cm^3", " "]
    return lines, [("set", ("initial_cell",), {"real_lattice": real, "recip_lattice": recip, "lattice_parameters": par,
                                               "cell_angles": ang, "volume": vol.v, "density_amu": da.v, "density_g": dg.v})]


@section("", "C26")
def supercell(c, w):
    m = [[(w.k + i * 3 + j) % 3 - 1 for j in range(3)] for i in range(3)]
    w.k += 1
    t = "; ".join(",".join(map(str, r)) for r in m)
    return [f"    Supercell generated using matrix  [{t}]"], \
        [("set", ("supercell",), tuple(tuple(map(float, r)) for r in m))]


def pos_rows(c, w, ats, b, mid="   "):
    rows, out = [], {}
    for sp, i in ats:
        p = [w.F("pos", 11, 6) for _ in range(3)]
        rows.append(f"        x  {sp:<9}{i:5d}  {p[0]}{p[1]}{p[2]}   x")
        out[(sp, i)] = v(*p)
    return rows, out


XB = "        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"


@section("POSITION", "C26")
def positions(c, w):
    rows, out = pos_rows(c, w, atoms(c), XB)
    return ["                           -------------------------------", "                                     Cell Contents",
            "                           -------------------------------", " ", XB,
            "        x  Element    Atom        Fractional coordinates of atoms  x",
            "        x            Number           u          v          w      x",
            "        x----------------------------------------------------------x", *rows, XB, " "], \
        [("set", ("initial_positions",), out)]


@section("POSITION", "C26")
def positions_labelled(c, w):
    b = "     xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
    lines = [b, "     x  Element    Atom        Fractional coordinates of atoms  User-defined  x",
             "     x            Number           u          v          w          LABEL     x",
             "     x------------------------------------------------------------------------x"]
    out, labs = {}, {}
    for i in range(c.pick("natoms", (3, 1, 2))):
        p = [w.F("pos", 11, 6) for _ in range(3)]
        lab = c.dev("label", ((f"H{i}", "", "abcdefgh", "L_1")))
        sp = ("H", "H:tag")[c.pick("tag", 2)] if i == 0 else "H"
        lines.append(f"     x  {sp:<9}{i + 1:5d}  {p[0]}{p[1]}{p[2]}     {lab:<10}  x")
        labs[(sp, i + 1)] = lab or "NULL"
        out[(f"{sp} [{lab}]" if lab else sp, i + 1)] = v(*p)
    return [*lines, b], [("update", ("labels",), labs), ("set", ("initial_positions",), out)]


@section("POSITION", "C26")
def positions_mixture(c, w):
    b = "        xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
    lines = [b, "        x  Mixture   Fractional coordinates of atoms  Components  Weights  x",
             "        x   atoms       u          v          w                            x",
             "        x------------------------------------------------------------------x"]
    out = {}
    names = (("Si", "Ge"), ("Si [A1]", "Ge:MyTag"), ("C", "N"))
    for i in range(c.pick("natoms", (2, 1, 3))):
        p = [w.F("pos", 11, 6) for _ in range(3)]
        nc = c.pick("ncomp", (2, 3, 1))
        for j, sp in enumerate([*nth(names, i, lambda _: ("Si", "Ge")), "O", *(nth((), k) for k in range(nc - 3))][:nc]):
            wt = w.F("wt", 10, 6, hi=1, kinds=("pos",))
            if j == 0:
                lines.append(f"        x{i + 1:5d}     {p[0]}{p[1]}{p[2]}   {sp:<8}{wt}  x")
            else:
                lines.append(f"        x{'':46}{sp:<8}{wt}  x")
            out[(sp, i + 1)] = {"pos": v(*p), "weight": wt.v}
    return [*lines, b], [("set", ("initial_positions",), out)]


@section("POSITION", "C26")
def velocities(c, w):
    rows, out = pos_rows(c, w, atoms(c), XB)
    return [XB, "        x  Element    Atom        User Supplied Ionic Velocities   x",
            "        x            Number          Vx         Vy         Vz      x",
            "        x----------------------------------------------------------x", *rows, XB], \
        [("set", ("initial_velocities",), out)]


@section("TSS&POSITION", "C26")
def reactant_product(c, w):
    mode = c.pick("end", ("Reactant", "Product"))
    rows, out = pos_rows(c, w, atoms(c), XB)
    return [f"          {'x' * 16}", f"          x   {mode:<9}  x", XB,
            "        x  Element    Atom        Fractional coordinates of atoms  x",
            "        x            Number           u          v          w      x",
            "        x----------------------------------------------------------x", *rows, XB], \
        [("set", (mode.lower(),), out)]


# ---------------------------------------------------------------- species

SP = ("Mn", "O", "H")


@section("SPECIES_PROPS", "C26")
def mass(c, w):
    n = c.pick("nspec", (2, 1, 3))
    lines, ops = ["                               Mass of species in AMU"], []
    for sp in [nth(SP, i) for i in range(n)]:
        sp = c.dev("lab", (sp, sp + ":tag"))
        x = w.F("mass", 13, 7, kinds=("pos", "wide"))
        lines.append(f"                                    {sp:<5}{x}")
        ops.append(("set", ("species_properties", sp, "mass"), x.v))
    return [*lines, " "], ops


@section("SPECIES_PROPS", "C26")
def quadrupole(c, w):
    n = c.pick("nspec", (2, 1, 3))
    lines, ops = ["                          Electric Quadrupole Moment (Barn)"], []
    for i, sp in enumerate([nth(SP, i) for i in range(n)]):
        sp = c.dev("lab", (sp, sp + ":tag"))
        x = w.F("efg", 13, 7, kinds=("pos", "neg", "zero"))
        tail = c.dev("iso", ("Isotope 55", "No Isotope Defined"))
        lines.append(f"                                    {sp:<5}{x} {tail}")
        ops.append(("set", ("species_properties", sp, "electric_quadrupole_moment"), x.v))
    return [*lines, " "], ops


@section("SPECIES_PROPS", "C26")
def pspot_files(c, w):
    n = c.pick("nspec", (2, 1, 3))
    lines, ops = ["                          Files used for pseudopotentials:"], []
    for sp in [nth(SP, i) for i in range(n)]:
        sp = c.dev("lab", (sp, sp + ":tag"))
        f = c.pick("file", ("my_pot.usp", "Mn_00PBE.usp", "on-the-fly generated: on-the-fly"))
        lines.append(f"                                    {sp:<5} {f}")
        ops.append(("set", ("species_properties", sp, "pseudopot"), f.split()[-1]))
    return [*lines, " "], ops


@section("SPECIES_PROPS", "C26")
def pseudo_atomic(c, w):
    sp = c.pick("spec", ("Fe", "H", "Mn"))
    e = w.F("epa", 10, 4, kinds=("neg", "pos", "wide", "negwide"))
    lines = [f" Pseudo atomic calculation performed for {sp} 3d6 4s2", "",
             f" Converged in 29 iterations to a total energy of {e} eV"]
    ops = [("set", ("species_properties", sp, "pseudo_atomic_energy"), e.v)]
    n = c.pick("spill", (2, 1, 0))
    sp_ = []
    for i in range(n):
        x = w.F("spill", 5, 2, kinds=("pos", "zero"), hi=9)
        lines.append(f"Charge spilling parameter for spin component {i + 1} = {x.strip()}%")
        sp_.append(0.01 * x.v)
    if n:
        ops.append(("set", ("species_properties", sp, "charge_spilling"), tuple(sp_)))
    return [*lines, ""], ops


@section("SPECIES_PROPS", "C26")
def quantisation_axis(c, w):
    a = [w.F("ax", 10, 5) for _ in range(3)]
    return ["         Quantisation axis:" + "".join(a), ""], [("set", ("quantisation_axis",), v(*a))]


@section("PSPOT", "C26")
def pspot_report(c, w):
    q = w.F("charge", 5, 2, kinds=("pos", "wide")).strip()
    lines = ["   ============================================================",
             "   | Pseudopotential Report - Date of generation 14-07-2023   |",
             "   ------------------------------------------------------------",
             f"   | Element: Mn Ionic charge: {q} Level of theory: LDA     |",
             "   | Atomic Solver: Koelling-Harmon                           |",
             "   |                                                          |",
             "   |               Reference Electronic Structure             |",
             "   |         Orbital         Occupation         Energy        |"]
    ref, dfn = [], []
    for i in range(c.pick("nref", (2, 1, 0))):
        o, e = w.F("occ", 8, 3, kinds=("pos", "zero")), w.F("en", 16, 3, kinds=("neg", "pos", "zero", "negwide"))
        orb = c.dev("orb", ("2s", "3s1/2", "3p3/2", "4f12"))
        lines.append(f"   |          {orb:<13}{o}{e}         |")
        ref.append({"orb": orb, "occupation": o.v, "energy": e.v})
    lines += ["   |                                                          |",
              "   |                 Pseudopotential Definition               |",
              "   |      Beta    l   2j     e      Rc     scheme   norm      |"]
    for i in range(c.pick("ndef", (2, 1, 0))):
        beta = c.dev("beta", (str(i + 1), "loc"))
        j = c.dev("j", (None, 1, 3))
        e, rc = w.F("e", 9, 3, kinds=("neg", "pos", "zero")), w.F("rc", 8, 3, kinds=("pos",))
        sch = c.dev("scheme", ("qc", "pn", "tm"))
        lines.append(f"   |{beta:>9}{i:6d}{'' if j is None else j:>5}{e}{rc}     {sch}     0        |")
        dfn.append({"beta": int(beta) if beta != "loc" else beta, "l": i, "j": j, "e": e.v, "Rc": rc.v, "scheme": sch, "norm": 0})
    out = {"reference_electronic_structure": ref, "pseudopotential_definition": dfn, "element": "Mn",
           "ionic_charge": float(q), "level_of_theory": "LDA", "solver": "Koelling-Harmon"}
    lines.append("   |                                                          |")
    if c.pick("aug", (True, False)):
        a, b = w.F("rin", 6, 3, kinds=("pos",)), w.F("rpc", 6, 3, kinds=("pos",))
        lines += [f"   | Augmentation charge Rinner ={a}                       |",
                  f"   | Partial core correction Rc ={b}                       |"]
        out["augmentation_charge_rinner"] = (a.v,)
        out["partial_core_correction"] = (b.v,)
    else:
        lines += ["   | No charge augmentation                                   |",
                  "   | No partial core correction                               |"]
    lines += ["   ------------------------------------------------------------",
              "   |      Author: Chris J. Pickard, Cambridge University      |",
              "   ============================================================", " "]
    return lines, [("append", ("pspot_detail",), out)]


@section("PSPOT", "C26")
def pspot_debug(c, w):
    lines, ops = [" ---------------------------------------"], []
    for i in range(c.pick("ndebug", (2, 1, 3))):
        typ = c.dev("type", ("AE", "PS"))
        e = w.F("eig", 13, 8, kinds=("neg", "pos", "zero")).strip()
        lines.append(f" {typ} eigenvalue nl {20 + i} = {e}")
        ops.append(("append", ("pspot_debug",), {"type": typ, "nl": 20 + i, "eigenvalue": float(e)}))
    return [*lines, " ---------------------------------------"], ops


# ---------------------------------------------------------------- symmetry

@section("SYMMETRIES", "C26")
def symmetry(c, w):
    lines = ["                           -------------------------------", "                               Symmetry and Constraints",
             "                           -------------------------------", " "]
    sym, con = {}, {}
    if c.pick("super", (True, False)):
        n = w.I("nprim", 0, kinds=("pos", "wide"))
        lines.append(f"                      Cell is a supercell containing {n} primitive cells")
        sym["n_primitives"] = n.v
    d = w.F("dev", 9, 5, kinds=("pos", "zero", "wide"))
    nsym = c.pick("nsym", (2, 0, 1))
    lines += [f"                      Maximum deviation from symmetry ={d}         ANG", " ",
              f"                      Number of symmetry operations   = {nsym:11d}"]
    sym["max_deviation"] = d.v
    sym["num_symmetry_operations"] = nsym
    nic = c.pick("nic", (4, 0))
    lines += [f"                      Number of ionic constraints     = {nic:11d}",
              "                      Point group of crystal =    32: Oh, m-3m, 4/m -3 2/m",
              "                      Space group of crystal =   213: P4_132, P 4bd 2ab 3", " "]
    con["num_ionic_constraints"] = nic
    sym["point_group"] = {"id": 32, "schoenflies": "Oh", "hermann_mauguin": "m-3m", "hermann_mauguin_full": "4/m -3 2/m"}
    sym["space_group"] = {"id": 213, "international": "P4_132", "hall": "P 4bd 2ab 3"}
    if nsym:
        sym["symop"] = []
        for i in range(nsym):
            lines += [" ", f"{i + 1:21d} rotation"]
            rot = []
            for _ in range(3):
                r = [w.F("rot", 16, 11, kinds=("pos", "neg", "zero"), hi=9) for _ in range(3)]
                lines.append(f"                 ({''.join(r)} )")
                rot.append(v(*r))
            t = [w.F("disp", 16, 11, kinds=("pos", "neg", "zero"), hi=9) for _ in range(3)]
            lines += [f"{i + 1:21d} displacement", f"                 ({''.join(t)} )",
                      "                      symmetry related atoms:"]
            rel = []
            for sp in (("Br", "Rb"), ("Se:tag",))[c.pick("rel", 2)]:
                n = c.dev("nrel", (2, 1, 12))
                lines.append(f"             {sp}:" + "".join(f"{k:5d}" for k in range(1, n + 1)))
                rel += [(sp, k) for k in range(1, n + 1)]
            sym["symop"].append({"rotation": rot, "displacement": v(*t), "symmetry_related": rel})
        lines.append(" ")
    else:
        lines.append("             Set iprint > 1 for details on symmetry rotations/translations")
    com = c.pick("com", (True, False))
    lines += [" ", "                         Centre of mass is constrained" if com else "                         Centre of mass is NOT constrained"]
    con["com_constrained"] = com
    if nic and c.pick("icv", (True, False)):
        lines += [" ", "            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx....",
                  "            x  Species       atom   co-ordinate  constraints.....",
                  "            x-------------------------------------------------------------...."]
        ic = {}
        for k in range(nic):
            sp, i = nth((("Se", 1), ("Se", 1), ("O:tag", 2), ("O:tag", 10)), k, lambda j: ("Si", j // 2 + 1))
            p = [w.F("ic", 12, 4, kinds=("pos", "neg", "zero", "wide")) for _ in range(3)]
            lines.append(f"            x {sp:<12}{i:7d}       {'xyz'[k % 3]}       {''.join(p)}")
            ic.setdefault((sp, i), []).append(v(*p))
        lines.append("            xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx....")
        con["ionic_constraints"] = ic
    else:
        lines.append("             Set iprint > 1 for details of linear ionic constraints")
    ncc = w.I("ncc", 0, hi=6, kinds=("pos", "zero"))
    cc = c.pick("cellcon", ((1, 2, 3, 4, 5, 6), (0, 0, 0, 0, 0, 0), (1, 1, 1, 0, 0, 0)))
    lines += [" ", f"                         Number of cell constraints= {ncc}",
              "                         Cell constraints are:  " + " ".join(map(str, cc)), " "]
    con["num_cell_constraints"] = ncc.v
    con["cell_constraints"] = cc
    return lines, [("set", ("symmetries",), sym), ("set", ("constraints",), con)]
