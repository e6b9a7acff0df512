"""Spectroscopy, electronic structure and other result tables."""
from __future__ import annotations

from mc.sections import DROP, section, nth
from mc.sections.setup import atoms, v


def trow(width, text):
    return f"  |{text:<{width}}|"


NAMES = ("H", "C:tag", "O [lab]", "Si")


def nucleus(c, n=None):
    return atoms(c, n, names=("H", "C:tag", "O [lab]", "Si"))


@section("CHEM_SHIELDING", "C30")
def chem_shielding(c, w):
    out = {"task": "Chemical Shielding"}
    b = "  " + "=" * 68
    lines = [b, trow(66, "                      Chemical Shielding Tensor"), "  |" + "-" * 66 + "|",
             trow(66, "     Nucleus                            Shielding tensor"),
             trow(66, "  Species            Ion            Iso(ppm)   Aniso(ppm)  Asym")]
    for sp, i in nucleus(c):
        a, b_ = w.F("iso", 12, 2), w.F("aniso", 11, 2)
        as_ = "N/A" if c.devflag("na") else w.F("asym", 4, 2, hi=1, kinds=("pos", "zero"), pad=0)
        lines.append(trow(66, f"    {sp:<8}{i:10d}        {a}{b_}      {as_}"))
        out[(sp, i)] = {"cs_iso": a.v, "cs_aniso": b_.v, "asym": None if as_ == "N/A" else as_.v}
    return [*lines, b], [("append", ("magres",), out)]


@section("CHEM_SHIELDING", "C30")
def shielding_efg(c, w):
    out = {"task": "Chemical Shielding and Electric Field Gradient"}
    b = "  " + "=" * 79
    lines = [b, trow(77, "                Chemical Shielding and Electric Field Gradient Tensors"), "  |" + "-" * 77 + "|",
             trow(77, "     Nucleus                       Shielding tensor             EFG Tensor"),
             trow(77, "    Species            Ion    Iso(ppm)   Aniso(ppm)  Asym    Cq(MHz)    Eta")]
    for sp, i in nucleus(c):
        a, b_, q, e = w.F("iso", 12, 2), w.F("aniso", 11, 2), w.E("cq", 12, 3, kinds=("pos", "neg", "zero", "tiny"), style="E{s}{e:02d}" if not c.deep else "E{s}{e:03d}"), \
            w.F("eta", 7, 2, hi=1, kinds=("pos", "zero"))
        as_ = "N/A" if c.devflag("na") else w.F("asym", 4, 2, hi=1, kinds=("pos", "zero"), pad=0)
        lines.append(trow(77, f"    {sp:<8}{i:12d}{a}{b_}      {as_}{q}{e}"))
        out[(sp, i)] = {"cs_iso": a.v, "cs_aniso": b_.v, "asym": None if as_ == "N/A" else as_.v, "cq": q.v, "eta": e.v}
    return [*lines, b], [("append", ("magres",), out)]


@section("CHEM_SHIELDING", "C30")
def efg(c, w):
    out = {"task": "Electric Field Gradient"}
    b = "  " + "=" * 63
    lines = [b, trow(61, "                Electric Field Gradient Tensor"), "  |" + "-" * 61 + "|",
             trow(61, "     Nucleus                              EFG tensor"), trow(61, "    Species            Ion             Cq(MHz)        Asym")]
    for sp, i in nucleus(c):
        q = w.E("cq", 22, 3, kinds=("pos", "neg", "zero", "tiny"), style="E{s}{e:03d}")
        as_ = "N/A" if c.devflag("na") else w.F("asym", 4, 2, hi=1, kinds=("pos", "zero"), pad=0)
        lines.append(trow(61, f"    {sp:<8}{i:12d}{q}        {as_}"))
        out[(sp, i)] = {"cq": q.v, "asym": None if as_ == "N/A" else as_.v}
    return [*lines, b], [("append", ("magres",), out)]


@section("CHEM_SHIELDING", "C30")
def jcoupling(c, w):
    out = {"task": "(An)Isotropic J-coupling"}
    b = "  " + "=" * 82
    kind = c.pick("jkind", ("Isotropic", "Anisotropic"))
    lines = [b, trow(80, f"                            {kind} J-coupling"), "  |" + "-" * 80 + "|",
             trow(80, "     Nucleus                               J-coupling values"),
             trow(80, "  Species          Ion     FC           SD         PARA       DIA       TOT(Hz)"),
             trow(80, "** Fe                7     --.--       --.--       --.--      --.--       --.--")]
    for sp, i in nucleus(c):
        x = [w.F("j", n, 2) for n in (10, 12, 12, 11, 12)]
        star = "**" if c.devflag("site") else "  "
        lines.append(trow(80, f"{star} {sp:<8}{i:11d}{''.join(x)}"))
        out[(sp, i)] = {k: n.v for k, n in zip(("fermi_contact", "spin_dipolar", "paramagnetic", "diamagnetic", "total"), x)}
    return [*lines, trow(80, ""), trow(80, "** Signifies Perturbing Nucleus A of coupling J_AB"), b], [("append", ("magres",), out)]


@section("CHEM_SHIELDING", "C30")
def hyperfine(c, w):
    out = {"task": "Hyperfine"}
    b = "  " + "=" * 62
    lines = [b, trow(60, "                        Hyperfine Tensor"), "  |" + "-" * 60 + "|",
             trow(60, "     Nucleus                         Hyperfine tensor"), trow(60, "    Species          Ion                 Iso(MHz)")]
    for sp, i in nucleus(c):
        x = w.E("hf", 25, 3, kinds=("pos", "neg", "zero", "tiny", "huge"), style="E{s}{e:03d}")
        lines.append(trow(60, f"    {sp:<8}{i:10d}{x}"))
        out[(sp, i)] = {"hf_iso": x.v}
    return [*lines, b], [("append", ("magres",), out)]


@section("TDDFT", "C30")
def tddft(c, w):
    b = "  + " + "=" * 65 + " +TDDFT"
    out = []
    lines = [b, "  +                     TDDFT excitation energies                     +TDDFT",
             "  +                     -------------------------                     +TDDFT",
             "  +   State number         Energy in   eV     Estimated error         +TDDFT", b,
             "  +                                                                   +TDDFT"]
    for s in range(c.pick("nstates", (3, 1, 2))):
        e, x = w.F("ex", 22, 15, hi=90, kinds=("pos", "neg", "zero")), w.E("err", 19, 10, kinds=("pos", "zero", "tiny"), style="E{s}{e:03d}")
        typ = c.dev("type", ("Singlet", "spurious", "Triplet"))
        n = s + 1 if s < 2 else c.dev("state", (3, 12, 100))
        lines.append(f"  +  {n:8d}{e}{x}     {typ:<11}+TDDFT")
        out.append({"energy": e.v, "error": x.v, "type": typ})
    return [*lines, "  +                                                                   +TDDFT", b,
            "  +  TDDFT calculation time:      39.35                               +TDDFT", b], [("set", ("tddft",), out)]


def brow(text=""):
    return f"  +{text:<67}+"


@section("BS", "C30")
def band_structure(c, w):
    sep, dash = "  + " + "=" * 65 + " +", "  + " + "-" * 65 + " +"
    ns, nk = c.pick("nspins", (2, 1)), c.pick("nk", (2, 1, 3))
    lines = [sep]
    style = c.pick("bshead", ("report", "BAND"))
    if style == "report":
        lines += [brow(), brow("     Band Structure Calculation: Progress report on root process"), brow(),
                  brow(f"   There are {nk:4d} BS k-points. Root process contains {nk:4d} of them."), brow(),
                  brow("   Spin= 1 of  1, K-point=   1 of   10 completed, Time:     0.11s."), brow(), sep,
                  brow("                       Electronic energies"), brow("                       -------------------")]
    else:
        lines += [brow("     B A N D   S T R U C T U R E   C A L C U L A T I O N"), brow("                       -------------------")]
    lines += [brow(), brow("   Band number   Energy in eV"), sep, brow()]
    out = []
    for s in range(ns):
        for k in range(nk):
            q = [w.F("k", 10, 6, hi=1, kinds=("pos", "neg", "zero")) for _ in range(3)]
            kn = k + 1 if k < 2 else c.dev("kno", (3, 10, 1000))
            g = c.dev("kgrp", (1, 12))
            lines += [dash, brow(f"  Spin={s + 1} kpt={kn:5d} ({''.join(q)}) kpt-group={g:3d}"), dash, brow()]
            row = {"spin": s + 1, "kx": q[0].v, "ky": q[1].v, "kz": q[2].v, "kpgrp": g, "band": [], "energy": []}
            for b in range(c.pick("nb", (2, 1, 3)) if not out else 1 + k % 2):
                n = b + 1 if b < 2 else c.dev("bno", (3, 10, 1000))
                e = w.F("band", 16, 6, kinds=("neg", "pos", "zero", "wide"))
                lines.append(brow(f"{n:12d}{e}"))
                row["band"].append(n)
                row["energy"].append(e.v)
            out.append(row)
    return [*lines, "  " + "=" * 69], [("set", ("bs",), out)]


@section("DIPOLE", "C30")
def dipole(c, w):
    i, val = w.F("ionic", 13, 4, kinds=("pos", "zero", "wide")), w.F("val", 13, 4, kinds=("pos", "zero", "wide"))
    ce, cp = [w.F("ce", 12, 4) for _ in range(3)], [w.F("cp", 12, 4) for _ in range(3)]
    m, d = w.F("mag", 10, 5, kinds=("pos", "zero", "wide")), [w.F("dir", 12, 6, hi=9) for _ in range(3)]
    lines = ["  " + "=" * 69, brow(), brow("   D I P O L E   O F   M O L E C U L E   I N   S U P E R C E L L"),
             brow("      Cite: S. J. Clark, et al. Europhys Lett 44, 578 (1998)"), brow(),
             brow("      WARNING: This is only correct for isolated molecules"), brow(),
             brow(f"    Total  ionic  charge in supercell:{i} electrons"), brow(f"    Total valence charge in supercell:{val} electrons"),
             brow(), brow("   Centre of electronic charge for system:"), brow(f"  {''.join(ce)}       ANG"),
             brow("   Centre of positive ionic charges:"), brow(f"  {''.join(cp)}       ANG"), brow(),
             brow(f"  Magnitude of Dipole ={m}  DEBYE"), brow(f"  Direction of Dipole = {''.join(d)}"), brow(), "  " + "=" * 69]
    return lines, [("set", ("molecular_dipole",), {"total_ionic": i.v, "total_valence": val.v, "centre_electronic": v(*ce),
                                                  "centre_positive": v(*cp), "dipole_magnitude": m.v, "dipole_direction": v(*d)})]


@section("DELTA_SCF", "C30")
def delta_scf(c, w):
    seed = c.pick("seed", ("N2", "Fe-spin", "manr.x"))
    w.k += 1
    lines = ["               Calculating MODOS weights", " +-------------------INPUT PARAMETERS-------------------+",
             f"Taking band from model   {seed}-base{w.k}.check"]
    check = f"{seed}-base{w.k}.check"
    states = []
    n, spins = c.pick("nstates", (2, 1, 3)), c.pick("spins", (0, 1, 2))
    tail, files = [], []
    for s in range(n):
        band, spin = w.I("band", 0, kinds=("pos", "wide")).v, c.dev("spin", (1, 2))
        if spins:  # both spins of the same bands
            band, spin = 16 - s // 2, 1 + (s + spins) % 2
        lines += [f"  MODOS state    {s + 1:12d}", f"  MODOS band  nr.{band:12d}", f"  MODOS band has spin{spin:8d}"]
        p = w.F("pop", 11, 6, hi=2, kinds=("pos", "zero"))
        tail.append(f"|DeltaSCF| Population of state: {band:5d}{spin:6d}{p}")
        st = {"band": band, "spin": spin, "pop": p.v}
        if c.pick("write", (True, False)) if s == 0 else True:
            f = f"{seed}-modos.modos_state_{band}_{spin}"
            files.append(f" Writing file   {f}")
            st["file"] = f
        states.append(st)
    return [*lines, *tail, *files, ""], [("set", ("delta_scf",), {"file": check, "states": states})]


MDKEYS = (("             time :", "time", "ps"), ("  Potential Energy:", "potential_energy", "eV"), ("  Kinetic   Energy:", "kinetic_energy", "eV"),
          ("  Total     Energy:", "total_energy", "eV"), ("          Enthalpy:", "enthalpy", "eV"), ("  Hamilt    Energy:", "hamilt_energy", "eV"),
          ("       Temperature:", "temperature", "K"), ("  Spring    Energy:", "spring_energy", "eV"),
          ("     T/=0 Pressure:", "t_0_pressure", "GPa"))


def md_table(c, w):
    b = "            " + "x" * 62
    def row(t):
        return f"            x {t:<59}x"
    lines = [b, f"            x{'':47}MD Data:     x", row("")]
    keys = c.pick("mdkeys", ((0, 1, 2, 3, 4, 5, 6), (0, 1), (0, 6, 8), (1, 2, 3, 5, 7, 6)))
    out = {}
    for i in keys:
        text, k, u = MDKEYS[i]
        x = w.F("md", 14, 6, kinds=("neg", "pos", "zero", "negwide") if u == "eV" else ("pos", "zero", "wide"))
        lines.append(row(f"{text}{x}{u:>21}"))
        out[k] = x.v
    lines += [row(""), b]
    return lines, out


@section("MD|MD_SUMMARY", "C30")
def md_data(c, w):
    lines, out = md_table(c, w)
    return lines, [("set", (k,), x, DROP) if k == "t_0_pressure" else ("set", (k,), x) for k, x in out.items()]


EQ = "=" * 85


@section("POLARISATION", "C30")
def berry_phase(c, w):
    lines, pol = [EQ, " Polarisation (C/m^2) in Recip Lattice Basis defined on range [-Quantum/2:Quantum/2]",
                  "              Direction                   Electronic   Ionic    Total    (Quantum)", EQ], {}
    for i in range(3):
        d = [float(i == j) for j in range(3)]
        n = [w.F("pol", 10, 4) for _ in range(3)]
        q = w.F("quantum", 10, 4, kinds=("pos", "wide"))
        lines.append(f" G_{i + 1}:  (  {d[0]:.4f},  {d[1]:.4f},  {d[2]:.4f}   )  {''.join(n)} ({q} )")
        pol[tuple(d)] = {"elec": n[0].v, "ionic": n[1].v, "total": n[2].v, "quantum": q.v, "units": "C/m^2"}
    lines += [EQ, ""]
    out = {"polarisation": pol}
    for u in ("e/bohr^2", "C/m^2"):
        lines.append(EQ)
        for k in ("Ionic", "Elec ", "Total"):
            n = [w.F("cart", 12, 6) for _ in range(3)]
            lines.append(f" {k} Polarisation (Cartesian Basis):{''.join(n)} ({u})")
            out[k.lower().strip()] = {"units": u, "val": v(*n)}
        lines += [EQ, ""]
    return lines[:-1], [("update", ("berry_phase",), out)]


@section("POLARISATION", "C30")
def berry_phase_verbose(c, w):
    lines = [EQ, "             Ionic contribution to polarisation (phase) [-1:1]", EQ,
             "ni nsp  Zion     frac_a1     frac_a2     frac_a3      pol_G1      pol_G2     pol_G3"]
    ions, out = {}, {}
    for k in range(c.pick("nions", (3, 1))):
        ni, nsp = nth(((1, 1), (2, 1), (1, 2)), k, lambda j: (j + 1, 3))
        p, q = [w.F("frac", 12, 6) for _ in range(3)], [w.F("pol", 12, 6) for _ in range(3)]
        lines.append(f"{ni:3d}{nsp:2d}   6.00{''.join(p)}{''.join(q)}")
        ions[(nsp, ni)] = {"coords": v(*p), "polarisation": v(*q)}
    t = [w.F("tot", 12, 6) for _ in range(3)]
    lines += [f" Total ionic polarisation (phase [-1:1])        {''.join(t)}", EQ, ""]
    out["ionic_contribution_to_polarisation"] = {"units": "phase", "total": v(*t), "ions": ions}

    def table(head):
        res = {}
        lines.extend([EQ, head, EQ])
        for k in ("Electronic", "Ionic", "Total"):
            n = [w.F("pol", 12, 6) for _ in range(3)]
            lines.append(f"{k + ' polarisation':<23}{''.join(n)}")
            res[k] = v(*n)
        lines.extend([EQ, ""])
        return res
    phase = table("             Polarisation (phase) [-1:1] in Recip Lattice Basis (G_1, G_2, G_3)")
    val = table("             Polarisation (e bohr)       in Recip Lattice Basis (G_1, G_2, G_3)")
    out["polarisation"] = {"phase": phase, "units": "e bohr", "val": val}
    table("      Volume Polarisation (e /bohr^2)    in Recip Lattice Basis (G_1, G_2, G_3)")
    out["volume_polarisation"] = {**table("      Volume Polarisation (C/m^2)        in Recip Lattice Basis (G_1, G_2, G_3)"), "units": "C/m^2"}
    more, ops = berry_phase(c, w)
    rest = ops[0][2]
    full = {**out, **rest, "polarisation": {**out["polarisation"], **rest["polarisation"]}}
    return lines + more, [("update", ("berry_phase",), full, {**out, **rest})]


@section("TEST_EXTRA_DATA", "C30")
def external_files(c, w):
    kind = c.pick("ext", ("xrd_sf", "hug"))
    lines, out = [f"<BEGIN {kind}>"], {}
    if kind == "hug":
        lines.append("# Compression    Temperature     Pressure        Energy")
        out = {k: [] for k in ("compression", "temperature", "pressure", "energy")}
        for _ in range(c.pick("nhug", (2, 1))):
            row = [w.F("hug", 16, 6) for _ in out]
            lines.append("".join(row))
            for k, x in zip(out, row):
                out[k].append(x.v)
    else:
        names = ("F_PAW", "F_IAM", "F_PP", "F_core", "F_soft", "F_aug")
        lines.append("   h   k   l" + "".join(f"{p}({n})".rjust(12) for n in names for p in ("Re", "Im")))
        out = {"qvec": [], **{n.lower(): [] for n in names}}
        for i in range(c.pick("nref", (2, 1))):
            lines.append(f"{i:4d}{1 - i:4d}{-i:4d}")
            out["qvec"].append((i, 1 - i, -i))
            for n in names:
                a, b = w.F("re", 12, 6), w.F("im", 12, 6)
                lines[-1] += a + b
                out[n.lower()].append(complex(a.v, b.v))
    return [*lines, f"<END {kind}>"], [("update", ("external_files",), {kind: out})]
