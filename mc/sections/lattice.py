"""Lattice dynamics, response and elasticity."""
from __future__ import annotations

from mc.compare import Close
from mc.sections import section, nth
from mc.sections.setup import atoms, v

PB = " + -------------------------------------------------------------------------- +"


def prow(text):
    return f" +{text:<76}+"


@section("PHONON", "C29")
def phonons(c, w):
    nq = c.pick("nq", (2, 1, 3))
    eq = " " + "=" * 78
    lines = [eq, prow("                           Vibrational Frequencies"), prow("                           -----------------------"),
             prow(""), prow(f" Performing frequency calculation at {nq:2d} wavevectors (q-pts)"), prow(" " + "=" * 74), prow("")]
    out = []
    for q in range(nq):
        style = c.pick("style", ("ir+raman", "plain", "ir"))
        lines.append(PB)
        p = [w.F("q", 10, 6, hi=1, kinds=("pos", "neg", "zero")) for _ in range(3)]
        wt = w.F("wt", 17, 10, hi=1, kinds=("pos",))
        same = q and c.pick("sameq", (False, True))
        if same:
            p = prev
        prev = p
        lines.append(prow(f"  q-pt={q + 1:5d} ({''.join(p)}){wt}"))
        data = {"qpt": v(*p)}
        if c.pick("loto", (False, True)) if q == 0 else same:
            lines.append(prow("  q->0 along (  0.500000  0.500000  0.000000)"))
        lines += [PB, prow("  Acoustic sum rule correction <   3.703446 cm-1 applied"),
                  prow("     N      Frequency irrep."), prow("                (cm-1)"), prow("")]
        cols = {k: [] for k in ("N", "frequency", "irrep", "ir_intensity", "ir_active", "raman_intensity", "raman_active")}
        irr = c.pick("irrep", (True, False)) if style == "plain" else True
        for m in range(c.pick("nmodes", (2, 1, 3)) if q < 2 else 1):
            f = w.F("freq", 15, 6, kinds=("pos", "neg", "zero", "wide"))
            n = m + 1 if m < 2 else c.dev("modeno", (3, 100, 9999))
            row = f"  {n:4d}{f}"
            cols["N"].append(n)
            cols["frequency"].append(f.v)
            if irr:
                a = c.dev("rep", ("a", "b", "t"))
                row += f"   {a}  "
                cols["irrep"].append(a)
            if style != "plain":
                ir = w.F("ir", 17, 7, kinds=("pos", "zero", "wide"))
                act = c.dev("iract", ("Y", "N"))
                row += f"{ir}  {act}"
                cols["ir_intensity"].append(ir.v)
                cols["ir_active"].append(act)
                act = c.dev("raact", ("N", "Y"))
                if style == "ir+raman":
                    ra = w.F("ra", 19, 7, kinds=("pos", "zero"))
                    row += f"{ra}  {act}"
                    cols["raman_intensity"].append(ra.v)
                else:
                    row += f"                       {act}"
                cols["raman_active"].append(act)
            lines.append(prow(row))
        data.update({k: x for k, x in cols.items() if x})
        if c.pick("chars", (True, False)) if q == nq - 1 or q == 0 else False:
            heads = [nth(("E", "2'", "m_v", "-4"), k, "C{}".format) for k in range(c.pick("nop", (3, 1, 4)))]
            lines += [prow(" " + "." * 74), prow("        Character table from group theory analysis of eigenvectors"),
                      prow("                           Point Group =  32, Oh"), prow(" " + "." * 74),
                      prow("  Rep  Mul | " + "".join(f"{h:>4}" for h in heads)), prow("           | ----------------")]
            tab = []
            for r in range(c.pick("nrep", (2, 1))):
                name = c.dev("repname", ("Eu", None, "A2u"))
                mul = c.dev("mul", (1, 4, 12))
                ch = [c.dev("char", (x, -x, 0)) for x in range(1, len(heads) + 1)]
                lines.append(prow(f" {'abcdefghijklmnopqrstuvwxyz'[r % 26]} {name or '':<4}{mul:4d} | " + "".join(f"{x:4d}" for x in ch)))
                row = {"chars": tuple(zip(heads, ch)), "mul": mul, "rep": "abcdefghijklmnopqrstuvwxyz"[r % 26]}
                if name:
                    row["name"] = name
                tab.append(row)
            data["char_table"] = tab
        out.append(data)
    lines.append(eq)
    return lines, [("set", ("phonons",), out)]


@section("PHONON", "C29")
def phonon_symmetry(c, w):
    kind = c.pick("symkind", ("int", "float"))
    title = {"int": "Elements of D with same absolute magnitude", "float": "Phase of Born Effective Charge elements"}[kind]
    b = "  " + "*" * 72
    lines = [b, f"  Phonon Symmetry Analysis: {title}", b]
    mat = []
    for r in range(c.pick("nrow", (3, 1, 6))):
        n = c.pick("ncol", (3, 12)) if r == 0 else n  # noqa: F821
        if kind == "int":
            row = [w.I("sym", 6, kinds=("pos", "zero")) for _ in range(n)]
        else:
            row = [w.F("phase", 6, 1, kinds=("pos", "zero", "neg"), hi=9) for _ in range(n)]
        lines.append("".join(row))
        mat.append(v(*row))
    return [*lines, " "], [("append", ("phonon_symmetry_analysis",), {"title": title, "mat": tuple(mat)})]


@section("PHONON", "C29")
def dynamical_matrix(c, w):
    n = c.pick("nions", (2, 1) if not c.deep else (2, 1, 4))
    b = "  " + "-" * (8 + 18 * 3 * n)
    lines = [b, "            Dynamical matrix", " Ion XYZ        real part  ((cm-1)**2)"]
    parts = []
    for part in range(2):
        if part:
            lines.append(" Ion XYZ        imaginary part  ((cm-1)**2)")
        rows = []
        for i in range(3 * n):
            r = [w.F("dyn", 18, 6, kinds=("pos", "neg", "zero", "negwide")) for _ in range(3 * n)]
            lines.append(f"{i // 3 + 1:4d}{i % 3 + 1:4d}{''.join(r)}")
            rows.append(r)
        parts.append(rows)
    mat = tuple(tuple(complex(a.v, b_.v) for a, b_ in zip(x, y)) for x, y in zip(*parts))
    return [*lines, b], [("set", ("dynamical_matrix",), mat)]


@section("PHONON", "C29")
def raman(c, w):
    lines = [" " + "=" * 78, prow("                      Raman Susceptibility Tensors ((A/amu)*0.5)"), " +" + "-" * 76 + "+"]
    out = []
    for m in range(c.pick("nmodes", (2, 1, 3))):
        lines.append(prow(f" Mode number:{m + 1:4d} Raman tensor       Depolarisation Ratio"))
        t = [[w.F("ram", 10, 4) for _ in range(3)] for _ in range(3)]
        d = w.F("depol", 14, 6, hi=1, kinds=("pos", "zero")) if c.pick("depol", (True, False)) else None
        lines += [prow(f" {''.join(t[0])}{d or ''}"), prow(f" {''.join(t[1])}"), prow(f" {''.join(t[2])}"), prow("")]
        x = tuple(tuple(z.v for z in r) for r in t)
        tr = x[0][0] + x[1][1] + x[2][2]
        ii = (x[0][0] * x[1][1] + x[0][0] * x[2][2] + x[1][1] * x[2][2]
              - x[0][1] * x[1][0] - x[0][2] * x[2][0] - x[1][2] * x[2][1])
        out.append({"tensor": x, "depolarisation": d.v if d else None, "trace": Close(tr), "ii": Close(ii)})
    return [*lines, " +" + "-" * 76 + "+", ""], [("append", ("raman",), out)]


def mat33(w, width, d, n=3, cols=3):
    return [[w.F("m", width, d) for _ in range(cols)] for _ in range(n)]


def vals(m):
    return tuple(tuple(x.v for x in r) for r in m)


@section("OPTICS", "C29")
def permittivity(c, w):
    dc = c.pick("dc", (True, False))
    m = mat33(w, 12, 5, cols=6 if dc else 3)
    b = " " + "=" * (79 if dc else 39)
    if dc:
        lines = [b, "        Optical Permittivity (f->infinity)             DC Permittivity (f=0)",
                 "        ----------------------------------             ---------------------"]
    else:
        lines = [b, "      Optical Permittivity (f->infinity)", "      ----------------------------------"]
    lines += ["    " + "".join(r[:3]) + "    " + "".join(r[3:]) for r in m]
    x = vals(m)
    ops = [("set", ("optical_permittivity",), tuple(r[:3] for r in x))]
    if dc:
        ops.append(("set", ("dc_permittivity",), tuple(r[3:] for r in x)))
    return [*lines, b], ops


@section("OPTICS", "C29")
def polarisability(c, w):
    st = c.pick("static", (True, False))
    m = mat33(w, 12, 5, cols=6 if st else 3)
    b = " " + "=" * (79 if st else 39)
    if st:
        lines = [b, "                                    Polarisabilities (A**3)",
                 "                Optical (f->infinity)                       Static  (f=0)",
                 "                ---------------------                       -------------"]
    else:
        lines = [b, "             Polarisability (A**3)", "                   Optical (f->infinity)", "                   ---------------------"]
    lines += ["    " + "".join(r[:3]) + "    " + "".join(r[3:]) for r in m]
    x = vals(m)
    ops = [("set", ("optical_polarisability",), tuple(r[:3] for r in x))]
    if st:
        ops.append(("set", ("static_polarisability",), tuple(r[3:] for r in x)))
    return [*lines, b], ops


@section("OPTICS", "C29")
def nlo(c, w):
    m = mat33(w, 12, 5, cols=6)
    b = " " + "=" * 75
    return [b, "      Nonlinear Optical Susceptibility (pm/V)", "      ---------------------------------------",
            *("  " + "".join(r) for r in m), b], [("set", ("nlo",), vals(m))]


@section("THERMODYNAMICS", "C29")
def thermodynamics(c, w):
    z = w.F("zpe", 17, 6, kinds=("pos", "neg", "zero"))
    lines = [" " + "=" * 69, "                             Thermodynamics", "                             ==============", "",
             f"            Zero-point energy ={z}  eV", " " + "-" * 78,
             "       T(K)        E(eV)           F(eV)         S(J/mol/K)      Cv(J/mol/K)", " " + "-" * 78]
    cols = {k: [] for k in ("t", "e", "f", "s", "cv")}
    n = c.pick("ntemp", (3, 1, 2))
    for _ in range(n):
        row = [w.F("T", 10, 1, kinds=("pos", "zero", "wide")), w.F("E", 16, 6), w.F("F", 16, 6), w.F("S", 16, 3), w.F("Cv", 16, 3)]
        lines.append("".join(row))
        for k, x in zip(cols, row):
            cols[k].append(x.v)
    return [*lines, " " + "-" * 78, " "], [("set", ("thermodynamics",), {"zero_point_energy": z.v, **cols})]


@section("THERMODYNAMICS", "C29")
def atomic_displacements(c, w):
    b = " " + "-" * 78
    lines = [" " + "=" * 78, "                      Atomic Displacement Parameters (A**2)",
             "                      ==============================", " ", b,
             "      T(K)  Ion        U11       U22       U33       U23       U31       U12", b]
    out = {}
    ats = atoms(c)
    for t in range(c.pick("ntemp", (2, 1))):
        temp = f"{100.0 * t:.1f}"
        out[temp] = {}
        for sp, i in ats:
            u = [w.F("U", 10, 6, kinds=("pos", "neg", "zero", "wide"), hi=9) for _ in range(6)]
            lines.append(f"{temp:>10}  {sp:<3}{i:3d}  {''.join(u)}")
            out[temp][(sp, i)] = v(*u)
    return [*lines, b], [("set", ("atomic_displacements",), out)]


# ---------------------------------------------------------------- elasticity

EB = " " + "=" * 79
ED = " " + "-" * 79


@section("ELASTIC", "C29")
def elastic_constants(c, w):
    m = mat33(w, 13, 6, n=6, cols=6)
    return [EB, "                          Elastic Constants Tensor (GPa)", ED, *("".join(r) for r in m), EB], \
        [("set", ("elastic", "elastic_constants"), vals(m))]


@section("ELASTIC", "C29")
def compliance(c, w):
    m = mat33(w, 14, 9, n=6, cols=6)
    return [EB, "                           Compliance Matrix (GPa^-1)", ED, *("".join(r) for r in m), EB], \
        [("set", ("elastic", "compliance_matrix"), vals(m))]


@section("ELASTIC", "C29")
def elastic_contribution(c, w):
    name = c.pick("contrib", ("Ewald Contribution", "<psi^1|H^(1)|psi^0> Contribution", "Local Contribution"))
    m = mat33(w, 17, 8, n=6, cols=6)
    return [f"{name} ::", *("".join(r) for r in m), " "], [("set", ("elastic", name), vals(m))]


@section("ELASTIC", "C29")
def elastic_properties(c, w):
    y = [w.F("young", 15, 6) for _ in range(3)]
    p = [w.F("poisson", 10, 6, hi=9) for _ in range(6)]
    k, s = [w.F("bulk", 15, 6) for _ in range(3)], [w.F("shear", 15, 6) for _ in range(3)]
    sp = mat33(w, 15, 6)
    a, b = w.F("long", 14, 6), w.F("trans", 14, 6)
    lines = [EB, "                               Elastic Properties", ED, "                            x              y              z", ED,
             f"  Young's Modulus :: {''.join(y)}     (GPa)", "", ED,
             "                        xy        xz        yx        yz        zx        zy", ED,
             f"  Poisson Ratios  ::{''.join(p)}", "", ED, "                          Voigt          Reuss          Hill", ED,
             f"   Bulk Modulus   :: {''.join(k)}     (GPa)", f"  Shear Modulus   :: {''.join(s)}     (GPa)", ""]
    out = {"young_s_modulus": v(*y), "poisson_ratios": v(*p), "bulk_modulus": v(*k), "shear_modulus": v(*s)}
    if c.pick("sound", (True, False)):
        lines += [ED, "                                 Speed of Sound", ED, "                            x              y              z", ED,
                  *(f"  {n} {''.join(r)}     (A/ps)" for n, r in zip(("                x ", "(Anisotropic)   y ", "                z "), sp)),
                  "", " Assuming Isotropic material",
                  f"  Longitudinal waves ::{a}   (A/ps)", f"   Transverse waves  ::{b}   (A/ps)"]
        out["speed_of_sound"] = vals(sp)
        out["longitudinal_waves"] = a.v
        out["transverse_waves"] = b.v
    return [*lines, EB], [("update", ("elastic",), out)]
