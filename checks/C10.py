"""Band-structure (.bands) files."""
from castep_outputs import parse_bands_file

from mc.gen import Num, Writer, check


def build(c, w, nspin, nk, nb, spinor=False):
    """CASTEP prints one or two electron and eigenvalue counts and Fermi energies."""
    lines, exp = [], {}

    def count(name, key, vals):
        lines.append(f"Number of {name} " + " ".join(str(v) for v in vals))
        exp[key] = vals[0].v if len(vals) == 1 else [v.v for v in vals]

    count("k-points", "k-points", [Num(f"{nk:4d}", nk)])
    count("spin components", "spin components", [Num(f"{nspin:d}", nspin)])
    style = c.dev("electrons", ("int", "real", "frac"))

    def el(i):
        n = 4 + i * 3
        if style == "int":
            return Num(f"{n:4d}", n)
        if style == "real":
            return Num(f"{n:.3f}", n)
        return Num(f"{n}.500", n + 0.5)

    count("electrons", "electrons", [el(i) for i in range(nspin)])
    count("eigenvalues", "eigenvalues", [Num(f"{nb[i]:4d}", nb[i]) for i in range(nspin)])
    fer = [w.F("fermi", 12, 6) for _ in range(nspin)]
    lines.append(("Fermi energy" if nspin == 1 else "Fermi energies") + " (in atomic units) " + " ".join(fer))
    exp["Fermi energy"] = [f.v for f in fer]
    lines.append("Unit cell vectors")
    exp["unit_cell"] = []
    for _ in range(3):
        v = [w.F("cell", 12, 6) for _ in range(3)]
        lines.append("".join(v))
        exp["unit_cell"].append([x.v for x in v])
    exp["coords"] = {}
    exp["bands"] = []
    order = c.dev("korder", ("up", "down")) if nk > 1 else "up"
    ks = range(1, nk + 1) if order == "up" else range(nk, 0, -1)
    big = c.dev("kindex", (0, 9998))
    for k in ks:
        q = [w.F("q", 12, 8, hi=1.0, kinds=("pos", "neg", "zero")) for _ in range(3)]
        wt = w.F("weight", 12, 8, hi=1.0, kinds=("pos", "zero"))
        lines.append(f"K-point {k + big:5d}{q[0]}{q[1]}{q[2]}{wt}")
        e = {"qpt": [x.v for x in q], "weight": wt.v, "spin_comp": nspin == 2}
        for s in range(nspin):
            lines.append(f"Spin component {s + 1}")
            ev = [w.F("eig", 14, 8) for _ in range(nb[s])]
            lines += ev
            e["band" if nspin == 1 else ("band_up", "band_down")[s]] = [x.v for x in ev]
        exp["bands"].append(e)
    return "\n".join(lines) + "\n", exp


def shapes(c):
    nspin = c.pick("nspin", (1, 2))
    nk = c.pick("nk", (1, 2, 3, 11) if not c.deep else (1, 2, 3, 4, 11, 101))
    nb = [c.pick(f"nb{s}", (1, 2, 3, 12)) for s in range(nspin)]
    text, exp = build(c, Writer(c, kinds=("pos",)), nspin, nk, nb)
    check(parse_bands_file, text, exp)
    return f"spin{nspin}"


def values(c):
    nspin = c.pick("nspin", (1, 2))
    nk = c.pick("nk", (1, 2))
    text, exp = build(c, Writer(c), nspin, nk, [2, 3][:nspin])
    check(parse_bands_file, text, exp)
    return f"spin{nspin}"


def large(c):
    """Many k-points and many bands."""
    nspin = c.pick("nspin", (1, 2))
    nk, nb = c.pick("size", ((1, 1001), (30, 120), (1200, 2)))
    text, exp = build(c, Writer(c, kinds=("pos",)), nspin, nk, [nb, nb + c.pick("more", (0, 3))][:nspin])
    check(parse_bands_file, text, exp)
    return f"{nk} k-points"


MODELS = [("large", large, 0, 0), ("shapes", shapes, 1, 2), ("values", values, 1, 2)]
