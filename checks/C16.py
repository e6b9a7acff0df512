"""Binary potential and electron-phonon files."""
import io
import struct

from castep_outputs.bin_parsers import parse_cst_esp_file, parse_epme_bin_file

from mc.core import Violation, fmt_exc
from mc.compare import canon, diff, show

SPECIAL = (None, 0.0, -0.0, -1.5, 5e-324, -1.7976931348623157e308, 1 / 3)


class W:
    """Unformatted writer: distinct doubles unless a slot deviates."""

    def __init__(self, c, special=True):
        self.c, self.k, self.out, self.special = c, 0, b"", special

    def dbl(self):
        self.k += 1
        v = self.c.dev(f"v{self.k}", SPECIAL) if self.special else None
        return self.k + self.k / 1009.0 if v is None else v

    def many(self, n):
        return [self.dbl() for _ in range(n)]

    def cplx(self, n):
        return [complex(self.dbl(), self.dbl()) for _ in range(n)]

    def rec(self, *vals):
        d = b""
        for v in vals:
            for x in v if isinstance(v, (list, tuple)) else (v,):
                if isinstance(x, int):
                    d += struct.pack(">i", x)
                elif isinstance(x, float):
                    d += struct.pack(">d", x)
                elif isinstance(x, complex):
                    d += struct.pack(">2d", x.real, x.imag)
                else:
                    d += x.encode()
        n = struct.pack(">i", len(d))
        self.out += n + d + n


def bits(v):
    """Text in which numbers differing in any bit differ, independent of the order of keys."""
    if isinstance(v, dict):
        return sorted((repr(k), bits(x)) for k, x in v.items())
    if isinstance(v, list):
        return [bits(x) for x in v]
    return repr(v)


def check(fn, data, exp, desc):
    try:
        got = canon(fn(io.BytesIO(data)))
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"file": desc}) from None
    exp = canon(exp)
    d = diff(exp, got)
    if d or bits(exp) != bits(got):
        raise Violation(show(d) or "sign of a zero differs", {"file": desc, "expected": repr(exp)[:3000], "got": repr(got)[:3000]})


def esp(w, dims, mgga):
    w.rec(1)
    w.rec(dims)
    exp = {"n_spins": 1, "grid": list(dims)}
    nx, ny, nz = dims
    for name in ("esp", "mgga") if mgga else ("esp",):
        exp[name] = []
        for x in range(1, nx + 1):
            exp[name].append([])
            for y in range(1, ny + 1):
                v = w.cplx(nz)
                w.rec(x, y, v)
                exp[name][-1].append(v)
    return exp


def esp_shapes(c):
    top = 6 if c.deep else 5
    mgga = c.flag("mgga")
    dims = [c.pick("nx", range(2 if mgga else 1, top)), c.pick("ny", range(1, top)), c.pick("nz", range(1, top))]
    w = W(c, special=False)
    exp = esp(w, dims, mgga)
    check(parse_cst_esp_file, w.out, exp, f"cst_esp {dims} mgga={mgga}")


def esp_values(c):
    w = W(c)
    exp = esp(w, [2, 2, 2], c.flag("mgga"))
    check(parse_cst_esp_file, w.out, exp, "cst_esp 2x2x2")


IONS = {"one": [("Si", 1)], "two": [("H", 1), ("H", 2)], "mixed": [("Si", 1), ("O", 1), ("Fe", 12)],
        "labelled": [("Si:a", 1), ("Si:b", 1), ("Si", 1), ("H:D", 2)], "long": [("Fe:alpha", 1), ("Fe", 100)]}


def epme(w, ions, nspin, pairs, bands, pad, strange=False):
    exp = {"version": 1, "n_spins": nspin, "fermi_energy": w.dbl()}
    w.rec("EPME".ljust(pad))
    w.rec(1)
    w.rec("header text ".ljust(2 * pad))
    w.rec(nspin)
    w.rec(exp["fermi_energy"])
    w.rec("ATOM")
    w.rec(len(ions))
    exp["n_ions"] = len(ions)
    exp["real_lattice"] = w.many(9)
    w.rec(exp["real_lattice"])
    exp["ions"] = {}
    for spec, i in ions:
        pos = w.many(3)
        w.rec(i)
        w.rec(spec.ljust(8))
        w.rec(pos)
        exp["ions"][spec, i] = pos
    w.rec("KPOINT")
    w.rec(2 * pairs)
    w.rec(bands)
    exp["n_kpoint_pairs"], exp["n_bands"], exp["kpoints"] = pairs, bands, {}
    for s in range(1, nspin + 1):
        for k in range(1, 2 * pairs + 1):
            nb = bands - (k % 2 if bands > 1 and strange else 0)
            d = {"n_bands": nb, "min_band": k if strange else 1, "eigenvalues": w.many(nb), "velocities": w.many(3 * nb)}
            w.rec(s)
            w.rec(k)
            for v in d.values():
                w.rec(v)
            exp["kpoints"][s, k] = d
    nmode = 3 * len(ions)
    w.rec("EPCOUPLING")
    w.rec(pairs)
    w.rec(bands * bands)
    exp["phonons"] = []
    for q in range(1, pairs + 1):
        d = {"kpts": [2 * q - 1, 2 * q], "frequencies": w.many(nmode), "modes": w.cplx(nmode * nmode if nmode < 6 else 2 * nmode),
             "matrix_elements": w.cplx(nmode * bands * bands)}
        w.rec(q)
        w.rec(bands)
        w.rec(bands)
        for v in d.values():
            w.rec(v)
        exp["phonons"].append(d)
    return exp


def epme_shapes(c):
    ions = c.pick("ions", IONS)
    nspin, pairs, bands = c.pick("spins", (1, 2)), c.pick("pairs", range(1, 6 if c.deep else 4)), c.pick("bands", (1, 2, 3, 5))
    w = W(c, special=False)
    exp = epme(w, IONS[ions], nspin, pairs, bands, c.pick("pad", (4, 20, 80)), c.flag("bands vary"))
    check(parse_epme_bin_file, w.out, exp, f"epme_bin {ions} spins={nspin} pairs={pairs} bands={bands}")


def epme_values(c):
    w = W(c)
    exp = epme(w, IONS["one"], 1, 1, 1, 20)
    check(parse_epme_bin_file, w.out, exp, "epme_bin")


def large(c):
    """Grids, ions, points and bands beyond single digits and single bytes."""
    w = W(c, special=False)
    if c.flag("esp"):
        dims, mgga = c.pick("dims", ([300, 1, 1], [2, 300, 2], [2, 1, 1500], [12, 13, 14])), c.flag("mgga")
        exp = esp(w, dims, mgga)
        check(parse_cst_esp_file, w.out, exp, f"cst_esp {dims} mgga={mgga}")
        return "esp"
    n, nspin, pairs, bands = c.pick("size", ((1, 1, 140, 2), (300, 1, 1, 1), (1, 2, 1, 40), (12, 2, 12, 3)))
    exp = epme(w, [(("Si", "O")[i % 2], i // 2 + 1) for i in range(n)], nspin, pairs, bands, 20)
    check(parse_epme_bin_file, w.out, exp, f"epme_bin {n} ions, {nspin} spins, {pairs} pairs, {bands} bands")
    return "epme"


MODELS = [("large", large, 0, 0), ("esp_shapes", esp_shapes, 0, 0), ("esp_values", esp_values, 2, 2), ("epme_shapes", epme_shapes, 0, 0), ("epme_values", epme_values, 1, 2)]
