"""Elastic, field-response, Hugoniot and transition-state files."""
from castep_outputs import (
    parse_efield_file,
    parse_elastic_file,
    parse_hug_file,
    parse_ts_file,
)

from mc.gen import Num, Writer, check
from mc.headers import SPECS, header

S3 = ("pos", "neg", "zero")
ALIAS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors", "hv": "lattice_velocity",
         "S": "stress", "R": "position", "V": "velocity", "F": "force"}
ND = ("xx", "yy", "zz", "yz", "xz", "xy")


# ---- .efield
def efield(c, w, nions, nosc, nperm, order, specs):
    lines, exp = header(c, w, (("ions", nions), ("branches", 3 * nions), ("frequencies", 6000)), nions, (), specs)
    q = w.F("Q", 11, 4, kinds=("pos", "zero", "wide"))
    lines.insert(4, f"  Oscillator Q         {q}")
    exp["Oscillator Q"] = [q.v]
    alt = dict(exp)
    for kind in order:
        if kind == "osc" and nosc is not None:
            lines.append(" BEGIN Oscillator Strengths   Freq (cm-1)   S xx yy zz yz zx xy ((D/A)**2/amu)")
            rows = []
            for i in range(nosc):
                v = [w.F("freq", 16, 6), w.F("s", 20, 6)] + [w.F("s", 15, 6) for _ in range(5)]
                lines.append(f"{i + 1:9d}" + "".join(v))
                rows.append([float(i + 1)] + [x.v for x in v])
            lines.append(" END Oscillator Strengths")
            if rows:
                exp.setdefault("oscillator_strengths", []).append({k: [r[j + 1] for r in rows] for j, k in enumerate(("freq", *ND))})
            if rows[:-1]:
                alt.setdefault("oscillator_strengths", []).append({k: [r[j] for r in rows[:-1]] for j, k in enumerate(("freq", *ND))})
        if kind == "perm" and nperm is not None:
            lines.append(" BEGIN permittivity   Freq (cm-1)    e_r  xx yy zz yz zx xy")
            rows = []
            for i in range(nperm):
                v = [w.F("freq", 22, 6), w.F("e", 20, 6)] + [w.F("e", 15, 6) for _ in range(5)]
                lines.append("".join(v))
                rows.append([x.v for x in v])
            lines.append(" END permittivity")
            for d, rr in ((exp, rows), (alt, rows[:-1])):
                if rr:
                    d.setdefault("permittivity", []).append({k: [r[j] for r in rr] for j, k in enumerate(("freq", *ND))})
    return "\n".join(lines) + "\n", exp, {"C12-efield-tables": alt}


def efield_shapes(c):
    text, exp, known = efield(c, Writer(c, kinds=("pos",)), c.pick("nions", (1, 2, 3)), c.pick("nosc", (None, 1, 2, 3, 10)),
                              c.pick("nperm", (None, 1, 2, 4)), c.pick("order", (("osc", "perm"), ("perm", "osc"), ("osc", "osc"), ("perm", "osc", "perm"), ("osc", "perm") * 2)),
                              SPECS[c.pick("specs", SPECS)])
    check(parse_efield_file, text, exp, known)


def efield_values(c):
    text, exp, known = efield(c, Writer(c), 2, 3, 3, ("osc", "perm"), SPECS["plain"])
    check(parse_efield_file, text, exp, known)


# ---- .elastic
BLOCKS = [("Elastic Constants", "GPa", "elastic_constants", 6, 6),
          ("Compliance Matrix", "GPa^-1", "compliance_matrix", 6, 6),
          ("Elastic Constants [Frozen Ion]", "GPa", "elastic_constants_frozen_ion", 6, 6),
          ("Relaxed Ion Contribution", "GPa", "relaxed_ion_contribution", 6, 6),
          ("Piezoelectric", "C/m^2", "piezoelectric", 3, 6),
          ("Piezoelectric [Frozen Ion]", "C/m^2", "piezoelectric_frozen_ion", 3, 6),
          ("Internal Strain", "eV/A", "internal_strain", None, 6)]


def g_fmt(w, name):
    """Fortran G24.16-like numbers: no leading zero with an exponent, fixed point otherwise."""
    w.k += 1
    x = (w.k * 0.137 + 0.1) % 0.9 + 0.05
    kind = w.kind(name, ("fixed", "neg", "sci", "negsci", "zero", "int"))
    text = {"fixed": f"{x * 37:.13f}", "neg": f"-{x * 11:.14f}", "sci": f"{x:.16f}E-03",
            "negsci": "-" + f"{x:.16f}"[1:] + "E-14", "zero": "0.000000000000000", "int": f"{int(x * 100) + 1}."}[kind]
    return Num(text, float(text))


def elastic(c, w, blocks, nions, specs):
    lines, exp = header(c, w, (("ions", nions),), nions, (), specs)
    for name, unit, key, nr, nc in blocks:
        lines.append(f" BEGIN {name}  ({unit})")
        if nr is None:
            exp[key] = {"units": unit}
            for i in range(nions):
                rows = []
                for d in "XYZ":
                    v = [g_fmt(w, "strain") for _ in range(nc)]
                    lines.append(f"{i + 1:6d}   {specs[i % len(specs)]:<6}  {d}  " + "  ".join(f"{x:>24}" for x in v))
                    rows.append([float(i + 1)] + [x.v for x in v])  # rows start with the ion number
                exp[key][specs[i % len(specs)], i + 1] = rows
        else:
            rows = []
            for _ in range(nr):
                v = [g_fmt(w, key) for _ in range(nc)]
                lines.append("  " + "  ".join(f"{x:>24}" for x in v))
                rows.append([x.v for x in v])
            exp[key] = {"units": unit, "val": rows}
        lines.append(f" END {name}")
    return "\n".join(lines) + "\n", exp


def elastic_shapes(c):
    blocks = [b for b in BLOCKS if c.pick(f"has:{b[0]}", (True, False))]
    if c.flag("reverse"):
        blocks = blocks[::-1]
    nions = c.pick("nions", (1, 3))
    text, exp = elastic(c, Writer(c, kinds=("fixed",)), blocks, nions, ("Al", "P"))
    check(parse_elastic_file, text, exp)


def elastic_values(c):
    b = c.pick("block", BLOCKS)
    text, exp = elastic(c, Writer(c), [b], 2, ("Al", "P"))
    check(parse_elastic_file, text, exp)


# ---- .hug
def hug(c):
    w = Writer(c)
    n = c.pick("rows", (0, 1, 2, 3, 12))
    exp, lines = {}, []
    for _ in range(n):
        if n > 3:
            w.kinds = ("pos",)
        v = [w.F("c", 16, 12, hi=10, kinds=("pos", "zero", "wide")), w.F("t", 18, 8), w.F("p", 18, 8), w.F("e", 18, 8)]
        lines.append("".join(v) + "  <-- cTPE")
        for k, x in zip(("compression", "temperature", "pressure", "energy"), v):
            exp.setdefault(k, []).append(x.v)
    check(parse_hug_file, "\n".join(lines) + "\n", exp)
    return f"{n} rows"


# ---- .ts
TYPES = {"REA": "reagent", "PRO": "product", "TST": "test"}


def ts_image(c, w, typ, i, atoms, tags):
    rc = w.E("rc", 20, 8, kinds=("pos", "zero", "neg", "tiny"))
    lines = [f" {typ}{i:5d}{rc}"]
    e = {"reaction_coordinate": rc.v}
    en = [w.E("E", 19, 8) for _ in range(2)]
    lines.append("    " + "  ".join(en) + "                       <-- E")
    e["E"] = e["energy"] = [[x.v for x in en]]
    h = []
    for _ in range(3):
        v = [w.E("h", 20, 8) for _ in range(3)]
        lines.append("     " + " ".join(v) + "  <-- h")
        h.append([x.v for x in v])
    e["h"] = e["lattice_vectors"] = h
    for t in tags:
        for s, n in atoms:
            v = [w.E(t, 20, 8) for _ in range(3)]
            lines.append(f" {s:<8}{n:4d} " + " ".join(v) + f"  <-- {t}")
            d = e.setdefault((s, n), {})
            d[t] = d[ALIAS[t]] = [x.v for x in v]
    return lines, e


def ts_shapes(c):
    n = c.pick("images", range(0, 5 if c.deep else 4))
    w = Writer(c, kinds=("pos",))
    lines, exp = [], {}
    if c.flag("confirm"):
        lines.append(" TSTYPE TSConfirmation")
        exp["confirmation"] = True
    else:
        lines.append(" TSTYPE LSTMaximum")
    cnt = {}
    atoms = c.pick("atoms", ([("H", 1), ("H", 2)], [("C", 1), ("O:x", 1), ("C", 12)]))
    for j in range(n):
        typ = c.pick(f"typ{j}", TYPES)
        tags = c.pick(f"tags{j}", ("RF", "R", "FR") if j == 0 else ("RF", "R"))
        cnt[typ] = cnt.get(typ, 0) + 1
        ls, e = ts_image(c, w, typ, cnt[typ], atoms, tags)
        lines += [*ls, ""]
        exp.setdefault(TYPES[typ], []).append(e)
    text = "\n".join(lines) + "\n"
    if n and c.flag("no-final-blank"):
        text = text.rstrip("\n") + "\n"
    check(parse_ts_file, text, exp)
    return f"{n} images"


def ts_values(c):
    w = Writer(c)
    lines, exp = [" TSTYPE TSConfirmation"], {"confirmation": True}
    for typ in ("REA", "TST"):
        ls, e = ts_image(c, w, typ, 1, [("H", 1), ("C", 1)], "RF")
        lines += [*ls, ""]
        exp[TYPES[typ]] = [e]
    check(parse_ts_file, "\n".join(lines) + "\n", exp)


def large(c):
    """Many ions, oscillators, frequencies, rows, path points."""
    kind, w = c.pick("format", ("efield", "elastic", "hug", "ts")), Writer(c, kinds=("pos",))
    if kind == "efield":
        nions, nosc, nperm = c.pick("size", ((40, 120, 3), (1, 1100, 2), (2, 6, 1100)))
        text, exp, known = efield(c, w, nions, nosc, nperm, ("osc", "perm"), SPECS["plain"])
        check(parse_efield_file, text, exp, known)
    elif kind == "elastic":
        text, exp = elastic(c, Writer(c, kinds=("fixed",)), BLOCKS, c.pick("size", (12, 120, 1100)), ("Al", "P"))
        check(parse_elastic_file, text, exp)
    elif kind == "hug":
        exp, lines = {}, []
        for _ in range(c.pick("size", (150, 1500))):
            v = [w.F("c", 16, 12, hi=10, kinds=("pos", "zero", "wide")), w.F("t", 18, 8), w.F("p", 18, 8), w.F("e", 18, 8)]
            lines.append("".join(v) + "  <-- cTPE")
            for k, x in zip(("compression", "temperature", "pressure", "energy"), v):
                exp.setdefault(k, []).append(x.v)
        check(parse_hug_file, "\n".join(lines) + "\n", exp)
    else:
        n, m = c.pick("size", ((1, 300), (120, 2), (14, 14)))
        lines, exp = [" TSTYPE LSTMaximum"], {}
        for i in range(n):
            typ = ("REA", "PRO", "TST", "TST")[i % 4]
            ls, e = ts_image(c, w, typ, i + 1, [("H", k + 1) for k in range(m)], "RF")
            lines += [*ls, ""]
            exp.setdefault(TYPES[typ], []).append(e)
        check(parse_ts_file, "\n".join(lines) + "\n", exp)
    return kind


MODELS = [("large", large, 0, 0), ("efield_shapes", efield_shapes, 0, 0), ("efield_values", efield_values, 1, 2),
          ("elastic_shapes", elastic_shapes, 0, 0), ("elastic_values", elastic_values, 1, 2),
          ("hug", hug, 1, 3), ("ts_shapes", ts_shapes, 0, 0), ("ts_values", ts_values, 1, 2)]
