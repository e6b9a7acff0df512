"""Population, bond and charge analyses."""
from __future__ import annotations

from mc.compare import Close
from mc.sections import section, nth
from mc.sections.setup import atoms

SH = ("s", "p", "d", "f")


@section("POPN_ANALYSIS", "C28")
def mulliken(c, w):
    spin = c.pick("spin", (False, True))
    out = {}
    if spin:
        b = "=" * 94
        lines = ["     Atomic Populations (Mulliken)", "     -----------------------------",
                 "Species          Ion Spin      s       p       d       f      Total   Charge(e)   Spin(hbar/2)", b]
    else:
        b = "=" * 74
        lines = ["     Atomic Populations (Mulliken)", "     -----------------------------",
                 "Species          Ion     s       p       d       f      Total   Charge (e)", b]
    for sp, i in atoms(c):
        up = [w.F("orb", 8, 3, kinds=("pos", "zero", "neg", "wide")) for _ in range(5)]
        ch = w.F("charge", 10, 3)
        if spin:
            dn = [w.F("orb", 8, 3, kinds=("pos", "zero", "neg")) for _ in range(5)]
            s = w.F("spin", 13, 3)
            lines += [f"  {sp:<8}{i:9d}   up: {''.join(up)}{ch}{s}", f"{'':10}{i:9d}   dn: {''.join(dn)}"]
            out[(sp, i)] = {"spin_sep": True, "charge": ch.v, "spin": s.v, "total": Close(up[4].v + dn[4].v),
                            **{f"up_{o}": x.v for o, x in zip((*SH, "total"), up)},
                            **{f"dn_{o}": x.v for o, x in zip((*SH, "total"), dn)}}
        else:
            lines.append(f"  {sp:<8}{i:9d} {''.join(up)}{ch}")
            out[(sp, i)] = {"spin_sep": False, "charge": ch.v, "spin": None, **{o: x.v for o, x in zip((*SH, "total"), up)}}
    return [*lines, b, ""], [("set", ("mulliken_popn",), out)]


ORB = ("S", "Px", "Py", "Pz", "Dzz", "Dzy", "Dxx-yy", "Fxyz")


@section("POPN_ANALYSIS", "C28")
def orbital_popn(c, w):
    out = {}
    b = "  -------------------------------------------"
    lines = ["            Orbital Populations", "     Ion    Atom   Orbital             Charge", b]
    for sp, i in atoms(c, c.pick("natoms", (2, 1, 3))):
        no = c.pick("norb", (4, 1, 8))
        out[(sp, i)] = {}
        for o in ORB[:no]:
            x = w.F("popn", 24 - len(o), 3, kinds=("pos", "zero", "neg", "wide"), hi=90)
            lines.append(f"      {sp:<4}{i:3d}      {o}{x}")
            out[(sp, i)][o] = x.v
    t = w.F("total", 11, 3, kinds=("pos", "wide", "zero"))
    p = [w.F("proj", 9, 3, kinds=("pos", "zero", "neg")) for _ in range(2)]
    lines += [b, f"                           Total:{t}", b,
              f"The total projected population is{p[0]}{p[1]}"]
    out["total"] = t.v
    return lines, [("set", ("orbital_popn",), out)]


@section("POPN_ANALYSIS", "C28")
def bonds(c, w):
    spin = c.pick("spin", (False, True))
    b = "=" * (80 if spin else 70)
    lines = ["                 Bond                   Population" + ("        Spin " if spin else "") + "      Length (A)", b]
    out = {}
    names = (("Si", 1, "Si", 2), ("Si", 2, "C", 1), ("H:tag", 1, "C [l1]", 2), ("Fe", 100, "Fe", 99), ("C", 1, "Si", 10))
    for sp1, i1, sp2, i2 in [nth(names, k, lambda j: ("O", 1 + j // 3, "Fe", 1 + j % 3)) for k in range(c.pick("nbonds", (3, 1, 2, 5)))]:
        p = w.F("popn", 12, 2, kinds=("pos", "neg", "zero", "wide"))
        s = w.F("spin", 13, 2, kinds=("pos", "neg", "zero")) if spin else None
        ln = w.F("len", 15, 5, kinds=("pos", "wide"))
        lines.append(f"              {sp1:<2} {i1} -- {sp2:<2} {i2}         {p}{s or ''}{ln}")
        val = {"population": p.v, "length": ln.v}
        if spin:
            val["spin"] = s.v
        out[((sp1, i1), (sp2, i2))] = val
    return [*lines, b], [("set", ("bonds",), out)]


@section("POPN_ANALYSIS", "C28")
def hirshfeld(c, w):
    out = {}
    lines = ["     Hirshfeld Analysis", "     ------------------", "Species   Ion     Hirshfeld Charge (e)",
             "======================================"]
    for sp, i in atoms(c):
        x = w.F("charge", 22, 2)
        lines.append(f"  {sp:<8}{i:3d}   {x}")
        out[(sp, i)] = x.v
    return [*lines, "======================================"], [("set", ("hirshfeld",), out)]


@section("POPN_ANALYSIS", "C29")
def born(c, w):
    out = {}
    b = " ==================================================="
    lines = [b, "                   Born Effective Charges", "                   ----------------------"]
    for k, (sp, i) in enumerate(atoms(c, names=("Mn", "O:tag", "Ge", "Si"))):
        rows = [[w.F("born", 12, 5) for _ in range(3)] for _ in range(3)]
        lab = c.dev("id", ("", f"lab{k}"))
        lines.append(f"   {sp:<5}{i:4d}    {''.join(rows[0])}" + (f" ID={lab}" if lab else ""))
        lines += [f"{'':16}{''.join(r)}" for r in rows[1:]]
        out[(f"{sp} [{lab}]" if lab else sp, i)] = tuple(tuple(x.v for x in r) for r in rows)
    return [*lines, b], [("append", ("born",), out)]


@section("ELF", "C30")
def elf(c, w):
    out = []
    lines = ["      ELF grid sample", "-----------------------"]
    for i in range(c.pick("nelf", (3, 1, 0, 11))):
        x = w.F("elf", 9, 6, hi=1, kinds=("pos", "zero"))
        lines.append(f" ELF {i + 1:8d}{x}")
        out.append(x.v)
    return [*lines, "-----------------------"], [("set", ("elf",), out)]
