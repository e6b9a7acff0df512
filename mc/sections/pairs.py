"""Pair-potential reports."""
from __future__ import annotations

from mc.sections import section

PAR2 = {"LJ": (("r", "A"), ("e", "eV"), ("s", "A")), "SHO": (("r", "A"), ("r_d", "A"), ("k", "eV/A^2")),
        "BUCK": (("A", "eV"), ("rho", "A"), ("C", "eV*A^6")), "DZ": (("q1", "eV"), ("q2", ""))}
PAR3 = {"SW": (("l", ""), ("c", "")), "DZ": (("A", ""), ("CUT1", ""), ("k", "eV"))}
GLOB = {"SW": (("e", "eV"), ("s", "A")), "DZ": (("B", ""), ("D", ""), ("EPS", "eV"), ("m", ""))}
SPEC = (("H", "He"), ("Si", "O"), ("C", "H:tag"))


def row(text, tail, tag):
    return f"{tag:<3}*{text:<66}* <-- {tail:>4}" if tail else f"{tag:<3}*{text:^66}*"


def value_row(lab, vals, unit, typ, tag):
    body = f"{lab:>5} " + (f"{vals[0]:>29}" + " " * 18 if len(vals) == 1 else "".join(f"{x:>12}" for x in vals) + "   ")
    return row(f"{body}{unit:<9}", typ, tag)


@section("PARAMETERS", "C31")
def pair_params(c, w):
    tag = c.pick("tag", ("", "SR", "WL"))
    sep = f"{tag:<3}" + "*" * 68
    lines = [f"{tag:<3}************************     PairParams     ************************", row("", "", tag)]
    out = {}

    def put(typ, lab, key, x):
        d = out.setdefault((tag + "_" if tag else "") + typ, {})
        if key is None:
            d[lab] = x.v
        else:
            d.setdefault(lab, {})[key] = x.v

    two = c.pick("two", (("LJ",), (), ("LJ", "SHO"), ("BUCK",), ("DZ",)))
    nsp = c.pick("nsp", (1, 2)) if two else 0
    for t, typ in enumerate(two):
        sp = SPEC[t % len(SPEC)]
        lines.append(row("Two Body", "", tag))
        if nsp == 1:
            lines.append(row(sp[0], "", tag))
            keys = [(sp[0],)]
        else:
            keys = [(a, b) for a in sp for b in sp]
            if c.pick("ncols", (4, 3, 1)) != 4:
                keys = [(sp[0], sp[1])] if t else keys[:3]
            lines.append(row("      " + "".join(f"{a:<3}-{b:<8}" for a, b in keys), "", tag))
        for lab, unit in PAR2[typ]:
            xs = [w.F("par", 11, 5, lo=0, kinds=("pos", "zero", "neg")) if len(keys) > 1 else
                  w.F("par", 16, 10, kinds=("pos", "neg", "zero", "wide", "small")) for _ in keys]
            lines.append(value_row(lab, xs, unit, typ, tag))
            for k, x in zip(keys, xs):
                put(typ, lab, k, x)
        lines.append(sep)
    for typ in c.pick("three", ((), ("SW",), ("DZ",), ("SW", "DZ"))):
        for sp in ((("H", "H", "H"),) if c.pick("trip", (1, 2)) == 1 else (("H", "He", "H"), ("Si", "Si", "O"))):
            lines += [row("Three Body", "", tag), row("   ".join(sp), "", tag)]
            for lab, unit in PAR3[typ]:
                x = w.F("par", 16, 10, kinds=("pos", "neg", "zero", "wide", "small"))
                lines.append(value_row(lab, [x], unit, typ, tag))
                put(typ, lab, sp, x)
            lines.append(sep)
    # rows of another tag within the same table
    tag = c.dev("globtag", (tag, *[t for t in ("SR", "X", "WL") if t != tag][:2]))
    for typ in c.pick("glob", ((), ("SW",), ("DZ",), ("SW", "DZ"))):
        if c.pick("globhead", (True, False)):
            lines.append(row(f"{typ} Units", "", tag))
        for lab, unit in GLOB[typ]:
            x = w.F("par", 16, 10, kinds=("pos", "neg", "zero", "wide", "small"))
            lines.append(value_row(lab, [x], unit, typ, tag))
            put(typ, lab, None, x)
        lines.append(sep)
    if not len(out):
        lines.append(sep)
    return [*lines, ""], [("append", ("pair_params",), out)]
