"""Energies and convergence."""
from __future__ import annotations

from mc.sections import section
from mc.sections.setup import v

SB = "-" * 72 + " <-- SCF"
HEAD_F = [SB, "SCF loop      Energy           Fermi           Energy gain       Timer   <-- SCF",
          "                               energy          per atom          (sec)   <-- SCF", SB]
HEAD_N = [SB, "SCF loop      Energy                           Energy gain       Timer   <-- SCF",
          "                                               per atom          (sec)   <-- SCF", SB]


def E17(w, name, kinds=("pos", "neg", "zero", "tiny", "huge")):
    return w.E(name, 17, 8, kinds=kinds)


def scf_table(c, w, fermi=True, cycles=None, extras=True):
    """Lines of one SCF table and the list of cycles."""
    lines, out = list(HEAD_F if fermi else HEAD_N), []
    n = c.pick("ncycles", (2, 1, 3)) if cycles is None else cycles
    e, f, t = E17(w, "E", ("neg", "pos", "zero", "huge")), E17(w, "F", ("zero", "neg", "pos")), w.F("t", 14, 2, kinds=("pos", "wide", "zero"))
    blank = " " * 14
    if fermi:
        lines.append(f"Initial {e[1:]:>16}{f} {blank}{t}  <-- SCF")
    else:
        lines.append(f"Initial {e[1:]:>16}{'':17}{'':17}{t}  <-- SCF")
    out.append({"energy": e.v, "fermi_energy": f.v if fermi else None, "energy_gain": None, "time": t.v})
    for i in range(n):
        e, g, t = E17(w, "E", ("neg", "pos", "zero", "huge")), E17(w, "G", ("pos", "neg", "zero", "tiny")), w.F("t", 11, 2, kinds=("pos", "wide", "zero"))
        debug = {}
        if extras and c.pick("debug", (False, True)) if i == 0 else False:
            nb = w.I("nb", 12, kinds=("pos",))
            lines += [f"Starting SCF cycle {i + 1:5d} of up to    30", f" no. bands in each block={nb}"]
            debug["no_bands"] = nb.v
            debug["kinetic_eigenvalue"], debug["eigenvalue"] = [], []
            for k in range(c.pick("nkin", (2, 1))):
                x = w.E("kin", 18, 8, kinds=("pos", "tiny"))
                lines.append(f"Kinetic eigenvalue #{k + 1:4d} ={x}")
                debug["kinetic_eigenvalue"].append(x.v)
            lines.append(" Diagonalising expanded subspace")
            for k in range(c.pick("nconv", (1, 2))):
                eig = []
                for j in range(c.pick("neig", (2, 0, 1))):
                    a, b, d = w.F("init", 7, 2), w.F("fin", 7, 2), w.F("chg", 7, 4, kinds=("pos", "neg", "zero"), hi=9)
                    lines.append(f"eigenvalue{j + 1:5d} init={a}     fin={b}     change={d}")
                    eig.append({"initial": a.v, "final": b.v, "change": d.v})
                lines.append(" Checking convergence criteria")
                debug["eigenvalue"].append(eig)
            con = {}
            for text, key in (("Exchange-correlation energy      =", "exchange_correlation_energy"),
                              ("+Hartree energy                  =", "hartree_energy"),
                              ("Potential energy (total)         =", "potential_energy_total"),
                              ("+Electronic entropy term (-TS)   =", "electronic_entropy_term_ts"),
                              ("Total free energy (E-TS)         =", "total_free_energy_e_ts"),
                              ("(XC correction to eigenvalue sum =", "xc_correction"),
                              ("(Apolar corr to eigenvalue sum   =", "apolar_correction"),
                              ("(Hubbard U correction to eigenvalu", "hubbard_u_correction")):
                x = w.F("con", 26, 17, kinds=("neg", "pos", "zero", "wide"))
                lines.append(f"{text}{x} eV" + (")" if text[0] == "(" else ""))
                con[key] = x.v
            lines.insert(-3, "----------------------------------")
            debug["contributions"] = con
            lines.append("")
        if fermi:
            f = E17(w, "F", ("neg", "pos", "zero"))
            lines.append(f"{i + 1:7d} {e[1:]:>16}{f} {g} {t}  <-- SCF")
        else:
            lines.append(f"{i + 1:7d} {e[1:]:>16}{'':17}{g} {t}  <-- SCF")
        row = {"energy": e.v, "fermi_energy": f.v if fermi else None, "energy_gain": g.v, "time": t.v}
        if debug:
            row["debug_info"] = debug
        if extras:
            what = c.pick("extra", (None, "residual", "unmixed", "constraint", "dipole")) if i < 2 else None
            if what == "residual":
                x = w.E("res", 26, 16, kinds=("pos", "tiny", "zero"))
                lines.append(f" Norm of density residual is {x}")
                row["density_residual"] = x.v
            elif what == "unmixed":
                lines.append(" Density was not mixed in this cycle")
                row["density_residual"] = None
            elif what == "constraint":
                x = w.E("cons", 24, 16, kinds=("pos", "neg", "tiny"))
                lines.append(f" Total constraint energy:{x} eV")
                row["constraint_energy"] = x.v
            elif what == "dipole":
                x = w.F("dip", 14, 5)
                lines.append(f" Correcting PBC dipole-dipole with self-consistent method: dE ={x} eV")
                row["dipole_corr_energy"] = x.v
        out.append(row)
    return [*lines, SB, " "], out


@section("SCF", "C25")
def scf(c, w):
    fermi = c.pick("fermi", (True, False))
    lines, out = scf_table(c, w, fermi)
    return lines, [("append", ("scf",), out)]


LB = "+--------+--------------------------------------------------------------+<- line"


@section("SCF", "C25")
def wvfn_line_min(c, w):
    e, d = w.E("e", 14, 6, kinds=("neg", "pos")), w.E("d", 11, 3, kinds=("neg", "pos"))
    n = c.pick("nsteps", (2, 1, 3, 5))
    st = [w.E("st", 11, 3, kinds=("pos", "neg", "tiny")) for _ in range(n)]
    ga = [w.E("ga", 11, 3, kinds=("pos", "neg", "zero")) for _ in range(n)]

    def row(name, vals):
        cells = [f"{x}" + ("*" if i == n - 1 else " ") for i, x in enumerate(vals)] + ["unnecessary "] * (5 - n)
        return f"| {name}   |" + "".join(cells) + "  |<- line"
    lines = ["+------------------- WAVEFUNCTION LINE MINIMISATION --------------------+<- line",
             f"| Initial energy ={e} eV; initial dE/dstep ={d} eV |<- line",
             "|                                                                       |<- line",
             "|            1st step    2nd step    3rd step    4th step    5th step   |<- line",
             LB, row("step", st), row("gain", ga), LB]
    return lines, [("append", ("wvfn_line_min",),
                    {"init_energy": e.v, "init_de_dstep": d.v, "steps": v(*st), "gain": v(*ga)})]


@section("SCF", "C25")
def occupancies(c, w):
    b = "+--------+-------------------+----------------+"
    lines = ["Spin 1, kpoint ( 0.000000  0.000000  0.000000 ) weight = 1.000000", b,
             "|  Band  |   Eigenvalue      |    Occupancy   |                   <- occ", b + "                   <- occ"]
    out = []
    for i in range(c.pick("nband", (2, 1, 3))):
        n = c.dev("band", (i + 1, 100 + i, 1000 + i, 1))
        e, o = w.E("eig", 15, 6, kinds=("neg", "pos", "zero", "huge")), w.E("occ", 14, 6, kinds=("pos", "tiny", "zero"))
        if c.devflag("fixocc"):
            o = w.F("occ", 10, 5, hi=2, kinds=("pos",))
        lines.append(f"|{n:6d}  | {e}   | {o}  |                   <- occ")
        out.append({"band": n, "eigenvalue": e.v, "occupancy": o.v})
    return [*lines, b + "                   <- occ", "Have a nice day."], [("append", ("occupancies",), out)]


# ---------------------------------------------------------------- energies (never filtered)

ENERGIES = (("Final energy =", "final_energy"), ("Final energy, E             =", "final_energy"),
            ("Final free energy (E-TS)    =", "free_energy"), ("NB est. 0K energy (E-0.5TS)      =", "est_0K"),
            ("(SEDC) Total Energy Correction :", "sedc_correction"),
            ("Dispersion corrected final energy* =", "disperson_corrected"),
            (" Total energy corrected for finite basis set =", "final_basis_set_corrected"),)


def energy_lines(c, w, which):
    lines, ops = [], []
    for i in which:
        text, key = ENERGIES[i]
        if key == "sedc_correction":
            x = w.E("sedc", 15, 6, kinds=("neg", "pos", "zero", "tiny"))
            lines.append(f"{text}{x} eV")
        else:
            x = w.F("energy", 18, 10, kinds=("neg", "pos", "zero", "negwide"))
            lines.append(f"{text}{x}     eV")
        ops.append(("append", ("energies", key), x.v))
    return lines, ops


@section("", "C25")
def energies(c, w):
    which = c.pick("variants", ((1, 2, 3), (0,), (1, 2, 3, 4, 5, 6), (0, 4, 5), (6,), (2, 3)))
    return energy_lines(c, w, which)


@section("", "C25")
def dedlne(c, w):
    x = w.F("dedlne", 15, 6)
    return [f" For future reference: finite basis dEtot/dlog(Ecut) ={x}eV"], [("set", ("dedlne",), x.v)]


@section("SOLVATION", "C25")
def solvation(c, w):
    x = w.F("solv", 18, 10)
    return [f" Free energy of solvation    ={x} eV"], [("append", ("energies", "solvation"), x.v)]


@section("SOLVATION", "C25")
def autosolvation(c, w):
    keys = (("Free energy in vacuum", "free_energy_in_vacuum"), ("Free energy in solvent", "free_energy_in_solvent"),
            ("Free energy of solvation (total)", "free_energy_of_solvation_total"))
    n = c.pick("nsolv", (3, 1, 2))
    lines, out = ["***************** AUTOSOLVATION CALCULATION RESULTS *****************", ""], {}
    for text, k in keys[:n]:
        x = w.F("solv", 18, 8)
        lines.append(f"  {text:<36}={x} eV")
        out[k] = x.v
    return [*lines, "", "*" * 69], [("set", ("autosolvation",), out)]


@section("SCF|SPIN", "C25")
def spin(c, w):
    vec = c.pick("vec", (False, True))
    lines, ops = [], []
    for text, key in (("Integrated Spin Density", "spin"), ("Integrated |Spin Density|", "modspin")):
        if vec:
            x = [w.F("spin", 13, 5, kinds=("pos", "neg", "zero", "tiny")) for _ in range(3)]
            lines.append(f"2*{text} (Sx,Sy,Sz)      ={''.join(x)} hbar")
            ops.append(("append", (key,), v(*x)))
        else:
            x = w.F("spin", 13, 5, kinds=("pos", "neg", "zero")) if c.pick("sci", (False, True)) is False else w.E("spin", 15, 6)
            lines.append(f"{text}      ={x} hbar/2")
            ops.append(("append", (key,), x.v))
    return lines, ops


@section("SCF", "C25")
def bsc(c, w):
    n = c.pick("ncut", (3, 2, 10) if c.deep else (3, 2))
    lines = [f"Calculating finite basis set correction with {n:2d} cut-off energies.",
             "Calculating total energy with cut-off of  150.000 eV."]
    tables, per = [], []
    which = c.pick("variants", ((1, 2, 3), (0,)))
    for i in range(n):
        if i:
            lines.append(f"Calculating total energy with cut-off of  {150 + 5 * i}.000 eV.")
        a, cyc = scf_table(c, w, fermi=True, cycles=1 if i else 2, extras=False)
        b, ops = energy_lines(c, w, which)
        lines += [*a, " ", *b[:2], "(energies not corrected for finite basis set)", " ", *b[2:], " "]
        tables.append(cyc)
        per.append([(p[-1], x) for _, p, x in ops])
    out = {}
    for step in per[:-1]:
        for k, x in step:
            out.setdefault(k, []).append(x)
    d, e = w.F("dedlne", 15, 6), w.F("corr", 16, 6, kinds=("neg", "pos"))
    lines += [f" For future reference: finite basis dEtot/dlog(Ecut) ={d}eV",
              f" Total energy corrected for finite basis set ={e} eV", ""]
    return lines, [("set", ("scf",), tables[-1]), ("set", ("bsc_scf",), tables[:-1]), ("set", ("bsc_energies",), out),
                   *(("append", ("energies", k), x) for k, x in per[-1]), ("set", ("dedlne",), d.v),
                   ("append", ("energies", "final_basis_set_corrected"), e.v)]
