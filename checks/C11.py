"""Phonon (.phonon) and phonon density-of-states (.phonon_dos) files."""
from castep_outputs import parse_phonon_dos_file, parse_phonon_file

from mc.gen import Writer, check
from mc.headers import SPECS, header

S3 = ("pos", "neg", "zero")


def phonon(c, w, nions, qpts, cols, specs, partial=False):
    nb = 3 * nions
    lines, exp = header(c, w, (("ions", nions), ("branches", nb), ("wavevectors", len(qpts))), nions,
                        (" Frequencies in         cm-1", " IR intensities in      (D/A)**2/amu",
                         " Raman activities in    A**4 amu**(-1)"), specs)
    exp["qpts"] = []
    for i, q in enumerate(qpts):
        v = [w.F("q", 10, 6, hi=1.0, kinds=S3) for _ in range(3)]
        wt = w.F("weight", 18, 10, hi=1.0, kinds=("pos", "zero"))
        ln = f"     q-pt={i + 1:5d}  {v[0]}{v[1]}{v[2]}{wt}"
        e = {"qpt": [x.v for x in v], "weight": wt.v, "eigenvalues": [], "eigenvectors": []}
        if q == "dir":
            d = [w.F("dir", 10, 6, hi=1.0, kinds=S3) for _ in range(3)]
            ln += f"  {d[0]}{d[1]}{d[2]}"
            e["dir"] = [x.v for x in d]
        lines.append(ln)
        qcols = cols if q in ("gamma", "dir") else ()
        for b in range(nb):
            f = w.F("freq", 15, 6)
            ln = f"{b + 1:8d}{f}"
            e["eigenvalues"].append(f.v)
            if "ir" in qcols:
                x = w.F("ir", 15, 7, kinds=("pos", "zero", "wide"))
                ln += " " * 8 + x
                e.setdefault("ir_intensity", []).append(x.v)
            if "raman" in qcols:
                x = w.F("raman", 15, 7, kinds=("pos", "zero", "wide"))
                ln = f"{ln:<55}" + x
                e.setdefault("raman_intensity", []).append(x.v)
            lines.append(f"{ln:<81}")
        lines.append("                        Phonon Eigenvectors")
        lines.append("Mode Ion                X                                   Y                                   Z")
        for b in range(nb):
            for n in range(nions):
                x = [w.F("vec", 16, 12, hi=1.0, kinds=S3) for _ in range(6)]
                lines.append(f"{b + 1:4d}{n + 1:4d}{x[0]}{x[1]}    {x[2]}{x[3]}    {x[4]}{x[5]}")
                e["eigenvectors"].append([complex(x[j].v, x[j + 1].v) for j in (0, 2, 4)])
        exp["qpts"].append(e)
    return "\n".join(lines) + "\n", exp


COLS = [(), ("ir",), ("ir", "raman"), ("raman",)]


def phonon_shapes(c):
    nions = c.pick("nions", (1, 2, 3, 4) if not c.deep else (1, 2, 3, 4, 5, 12))
    nq = c.pick("nq", (1, 2, 3))
    qs = [c.pick(f"q{i}", ("gamma", "dir", "plain")) for i in range(nq)]
    cols = c.pick("cols", COLS)
    specs = SPECS[c.pick("specs", SPECS)]
    text, exp = phonon(c, Writer(c, kinds=("pos",)), nions, qs, cols, specs)
    check(parse_phonon_file, text, exp)
    return f"q{nq}"


def phonon_values(c):
    qs = c.pick("qs", (("gamma",), ("dir", "plain"), ("plain", "gamma")))
    cols = c.pick("cols", COLS)
    text, exp = phonon(c, Writer(c), 1, qs, cols, SPECS["plain"])
    check(parse_phonon_file, text, exp)


def phonon_two_ions(c):
    text, exp = phonon(c, Writer(c), 2, ("dir",), ("ir", "raman"), SPECS["same"])
    check(parse_phonon_file, text, exp)


def dos(c, w, nions, grads, rows, specs, order):
    nb = 3 * nions
    species = list(dict.fromkeys(specs[i % len(specs)] for i in range(nions)))
    lines, exp = header(c, w, (("ions", nions), ("species", len(species)), ("branches", nb), ("bins in DOS", 2001)), nions, (), specs)
    alt = None
    for kind in order:
        if kind == "grad":
            if grads is None:
                continue
            lines.append(" BEGIN GRADIENTS   n   f   |Grad_q f|")
            for i in range(grads):
                v = [w.F("q", 10, 6, hi=1.0, kinds=S3) for _ in range(3)]
                wt = w.F("weight", 18, 10, hi=1.0, kinds=("pos", "zero"))
                lines.append(f"     q-pt={i + 1:5d}  {v[0]}{v[1]}{v[2]}{wt}")
                e = {"qpt": [x.v for x in v], "pth": [wt.v], "n": [], "f": [], "Grad_qf": []}
                for b in range(nb):
                    f, g = w.F("f", 15, 6), w.F("g", 22, 7, kinds=("pos", "zero", "wide"))
                    lines.append(f"{b + 1:8d}{f}{g}")
                    e["n"].append(b + 1)
                    e["f"].append(f.v)
                    e["Grad_qf"].append(g.v)
                exp.setdefault("gradients", []).append(e)
            lines.append(" END GRADIENTS")
        elif rows is not None:
            lines.append(" BEGIN DOS   Freq (cm-1)  g(f)   " + "   ".join(species))
            e = {k: [] for k in ("freq", "g", *species)}
            for _ in range(rows):
                vals = [w.F("freq", 8, 1)] + [w.F("g", 11, 6, kinds=("pos", "zero", "wide")) for _ in range(1 + len(species))]
                lines.append("".join(vals))
                for k, v in zip(e, vals):
                    e[k].append(v.v)
            lines.append(" END DOS")
            exp["dos"] = [e]
            alt = {k: v[:-1] for k, v in e.items()}
    known = {}
    if alt is not None:
        a = dict(exp)
        a["dos"] = [alt]
        if rows == 1:
            del a["dos"]
        known = {"C11-dos-last-row": a}
    return "\n".join(lines) + "\n", exp, known


def _drop(got):
    got.pop("", None)  # unlabelled header remarks are not data
    return got


def dos_shapes(c):
    nions = c.pick("nions", (1, 2, 3))
    grads = c.pick("grads", (None, 1, 2, 3))
    rows = c.pick("rows", (None, 1, 2, 3, 5))
    specs = SPECS[c.pick("specs", SPECS)]
    order = c.pick("order", (("grad", "dos"), ("dos", "grad")))
    text, exp, known = dos(c, Writer(c, kinds=("pos",)), nions, grads, rows, specs, order)
    check(parse_phonon_dos_file, text, exp, known, pre=_drop)


def dos_values(c):
    text, exp, known = dos(c, Writer(c), c.pick("nions", (1, 2)), 2, 3, SPECS["plain"], ("grad", "dos"))
    check(parse_phonon_dos_file, text, exp, known, pre=_drop)


def large(c):
    """Many ions, many points, many rows."""
    w = Writer(c, kinds=("pos",))
    if c.flag("dos"):
        nions, grads, rows = c.pick("size", ((40, 2, 3), (2, 120, 3), (2, 2, 2001), (1, None, 1100)))
        text, exp, known = dos(c, w, nions, grads, rows, SPECS[c.pick("specs", SPECS)], ("grad", "dos"))
        check(parse_phonon_dos_file, text, exp, known, pre=_drop)
        return "dos"
    nions, nq = c.pick("size", ((34, 1), (12, 3), (2, 130), (1, 1001)))
    cols = c.pick("cols", COLS)
    text, exp = phonon(c, w, nions, [("gamma", "dir", "plain")[i % 3] for i in range(nq)], cols, SPECS[c.pick("specs", SPECS)])
    check(parse_phonon_file, text, exp)
    return "phonon"


MODELS = [("large", large, 0, 0), ("phonon_shapes", phonon_shapes, 0, 0), ("phonon_values", phonon_values, 1, 2),
          ("phonon_two_ions", phonon_two_ions, 1, 1),
          ("dos_shapes", dos_shapes, 0, 0), ("dos_values", dos_values, 1, 2)]
