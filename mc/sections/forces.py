"""Forces and stresses."""
from __future__ import annotations

from mc.sections import section
from mc.sections.setup import atoms, v

VARIANTS = (("", "non_descript"), ("Constrained ", "constrained"), ("Unconstrained ", "unconstrained"),
            ("Symmetrised ", "symmetrised"), ("Constrained Symmetrised ", "constrained_symmetrised"))


def force_table(c, w, variant=None, ats=None):
    name, key = VARIANTS[c.pick("variant", (0, 1, 2, 3, 4) if c.deep else (0, 4, 1))] if variant is None else VARIANTS[variant]
    mark = c.pick("marker", (False, True))
    head = f" {name}Forces "
    lines = [f" {head:*^84}", " *" + " " * 82 + "*", " *                           Cartesian components (eV/A)                            *",
             " * " + "-" * 80 + " *", " *                         x                    y                    z              *",
             " *" + " " * 82 + "*"]
    out = {}
    for sp, i in ats or atoms(c):
        row = f" * {sp:<8}{i:9d}"
        vals = []
        for j in range(3):
            f = w.F("force", 13 if j == 0 else 12, 5)
            m = ""
            if mark:
                m = c.dev("mark", (("(cons'd)", " (mixed)", "")[j % 3 if variant is None else 0], "(cons'd)", " (mixed)", ""))
            row += f"{f}{m:<9}"
            vals.append(f)
        lines.append(row + "*")
        out[(sp, i)] = v(*vals)
    lines += [" *" + " " * 82 + "*", " " + "*" * 84]
    return lines, key, out


@section("FORCE", "C27")
def forces(c, w):
    lines, key, out = force_table(c, w)
    return lines, [("append", ("forces", key), out)]


@section("FORCE", "C27")
def com_force(c, w):
    f = [w.E("df", 26, 16, kinds=("neg", "pos", "zero", "tiny", "negtiny")) for _ in range(3)]
    return ["firstd_calculate: removing force on centre of mass", *(f" dF{d}: {x} eV/A" for d, x in zip("xyz", f)), ""], \
        [("append", ("forces", "com_force_removal"), v(*f))]


SVARIANTS = (("", "non_descript"), ("Symmetrised ", "symmetrised"), ("Unsymmetrised ", "unsymmetrised"),
             ("Raw Cartesian ", "raw_cartesian"))


def stress_table(c, w, variant=None):
    name, key = SVARIANTS[c.pick("variant", (0, 1, 2, 3) if c.deep else (0, 1))] if variant is None else SVARIANTS[variant]
    head = f" {name}Stress Tensor "
    s = {k: w.F("stress", 14, 6) for k in ("xx", "xy", "xz", "yy", "yz", "zz")}
    rows = (("xx", "xy", "xz"), ("xy", "yy", "yz"), ("xz", "yz", "zz"))
    lines = [f" {head:*^49}", " *" + " " * 47 + "*", " *          Cartesian components (GPa)           *",
             " * " + "-" * 45 + " *", " *             x             y             z     *", " *" + " " * 47 + "*"]
    for d, r in zip("xyz", rows):
        lines.append(f" *  {d} {s[r[0]][1:]}{s[r[1]]}{s[r[2]]}  *")
    p = w.F("press", 10, 4, kinds=("pos",))
    lines += [" *" + " " * 47 + "*", f" *  Pressure:{p}                          *", " *" + " " * 47 + "*", " " + "*" * 49]
    return lines, key, tuple(s[k].v for k in ("xx", "xy", "xz", "yy", "yz", "zz"))


@section("STRESS", "C27")
def stress(c, w):
    lines, key, out = stress_table(c, w)
    return lines, [("append", ("stresses", key), out)]
