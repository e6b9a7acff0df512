"""Formatted grid files and X-ray structure factors."""
from castep_outputs import (
    parse_chdiff_fmt_file,
    parse_den_fmt_file,
    parse_elf_fmt_file,
    parse_pot_fmt_file,
    parse_xrd_sf_file,
)

from mc.gen import Writer, check

FORMATS = {
    "den": (parse_den_fmt_file, (("charge",), ("charge", "spin")), " in units of electrons/grid_point * number of grid_points"),
    "chdiff": (parse_chdiff_fmt_file, (("charge",), ("charge", "spin")), " in units of electrons/grid_point * number of grid_points"),
    "pot": (parse_pot_fmt_file, (("pot",), ("pot_up", "pot_dn")), " in units of Hartrees"),
    "elf": (parse_elf_fmt_file, (("chi",), ("chi_alpha", "chi_beta")), ""),
}


def grid(c, w, cols, units, dims, order, blanks, kinds):
    cell = Writer(c, kinds=("pos",))
    lines = [" BEGIN header", "  ", "           Real Lattice(A)               Lattice parameters(A)    Cell Angles"]
    for a, b in (("a", "alpha"), ("b", "beta "), ("c", "gamma")):
        v = [cell.F("cell", 14, 7) for _ in range(3)]
        lines.append("".join(v) + f"     {a} = {cell.F('abc', 11, 6)}  {b} = {cell.F('ang', 11, 6)}")
    lines += ["", f"{len(cols):4d}                            ! nspins",
              "{:4d}  {:4d}  {:4d}                ! fine FFT grid along <a,b,c>".format(*dims),
              f' END header: data is "<a b c> {" ".join(cols)}"{units}', " "]
    na, nb, nc = dims
    pts = [(i, j, k) for k in range(1, nc + 1) for j in range(1, nb + 1) for i in range(1, na + 1)]
    if order == "c-order":
        pts.sort()
    exp = {}
    for n, p in enumerate(pts):
        v = [w.F(col, 20, 6, kinds=kinds) for col in cols]
        lines.append("{:6d}{:6d}{:6d}".format(*p) + "".join(v))
        if blanks and n % blanks == blanks - 1:
            lines.append("")
        exp.setdefault("q", []).append(p)
        for col, x in zip(cols, v):
            exp.setdefault(col, []).append(x.v)
    return "\n".join(lines) + "\n", exp


def grid_shapes(c):
    fn, cols, units = FORMATS[c.pick("format", FORMATS)]
    cols = cols[c.pick("cols", len(cols))]
    top = 4 if c.deep else 3
    dims = tuple(c.pick(f"n{x}", range(1, top + 1)) for x in "abc")
    if c.flag("large index"):
        dims = (*dims[:2], 120) if dims[0] == dims[1] == 1 else dims
    text, exp = grid(c, Writer(c, kinds=("pos",)), cols, units, dims, c.pick("order", ("fortran", "c-order")),
                     c.pick("blank every", (0, 1, 3)), ("pos",))
    check(fn, text, exp)


def grid_values(c):
    fn, cols, units = FORMATS[c.pick("format", FORMATS)]
    text, exp = grid(c, Writer(c), cols[c.pick("cols", len(cols))], units, (2, 2, 2), "fortran", 0, ("pos", "neg", "zero", "wide", "negwide"))
    check(fn, text, exp)


FACTORS = ("PAW", "IAM", "PP", "core", "soft", "aug")


def xrd(c, rows, names, qkinds):
    w = Writer(c)
    if rows > 3:
        w.kinds = ("pos",)
    lines = ["   h   k   l" + "".join(f"{f'{p}(F_{n})':>12}" for n in names for p in ("Re", "Im"))]
    exp = {}
    rel = c.pick("directions", ("other", "same", "opposite", "permuted")) if not qkinds and rows else "other"
    for k in range(rows):
        q = [c.dev("hkl", (1, 0, -1, -23, 77, 100, -100)) if rows <= 3 else r for r in ((0, 1, 2))] if qkinds else \
            {"other": [1, k - 1, 2], "same": [1, 0, 2], "opposite": [(-1) ** k * x for x in (1, -2, k // 2)],
             "permuted": [(1, 0, 2)[(k + i) % 3] for i in range(3)]}[rel]
        v = [[w.F(n, 12, 6, pad=0, kinds=("pos", "neg", "zero", "wide", "negwide")) for _ in "ri"] for n in names]
        lines.append("".join(f"{x:4d}" for x in q) + "".join(x for pair in v for x in pair))
        exp.setdefault("qvec", []).append(q)
        for n, (re, im) in zip(names, v):
            exp.setdefault(f"f_{n.lower()}", []).append(complex(re.v, im.v))
    return "\n".join(lines) + "\n", exp


def xrd_shapes(c):
    """Column sets and row counts."""
    names = c.subset("factor", FACTORS)
    if not names:
        return "none"
    names = names[::-1] if c.flag("reversed columns") else names
    text, exp = xrd(c, c.pick("rows", (0, 1, 2, 3, 12)), names, False)
    check(parse_xrd_sf_file, text, exp)


def xrd_values(c):
    text, exp = xrd(c, c.pick("rows", (1, 2, 3)), FACTORS if c.flag("all") else ("PAW", "PP"), True)
    check(parse_xrd_sf_file, text, exp)


def large(c):
    """Many grid points and many structure factors."""
    if c.flag("xrd"):
        text, exp = xrd(c, c.pick("rows", (150, 900)), c.pick("names", (FACTORS, ("PP",))), False)
        check(parse_xrd_sf_file, text, exp)
        return "xrd"
    fn, cols, units = FORMATS[c.pick("format", FORMATS)]
    dims = c.pick("dims", ((12, 11, 10), (1, 1, 1200), (1200, 1, 1), (1, 120, 2)))
    text, exp = grid(c, Writer(c, kinds=("pos",)), cols[c.pick("cols", len(cols))], units, dims, "fortran", 0, ("pos", "neg", "zero", "wide", "negwide"))
    check(fn, text, exp)
    return "grid"


MODELS = [("large", large, 0, 0), ("grid_shapes", grid_shapes, 0, 0), ("grid_values", grid_values, 2, 3), ("xrd_shapes", xrd_shapes, 0, 0),
          ("xrd_values", xrd_values, 1, 2)]
