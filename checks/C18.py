"""Blocks of .cell and .param files."""
import io

from castep_outputs import parse_cell_file, parse_param_file

from mc.compare import canon, diff, show
from mc.core import Hang, Violation, fmt_exc
from mc.gen import Num

SPELL = ["fix", "neg", "int", "exp", "dexp", "frac", "negfrac", "point", "trail", "zero", "plus"]
NOFRAC = ["fix", "neg", "int", "exp", "dexp", "point", "trail", "zero"]


class Nums:
    """Distinct input-file numbers, spelled one way each."""

    def __init__(self, c):
        self.c, self.k, self.pattern = c, 0, None

    def __call__(self, kinds=SPELL):
        if self.pattern is None:
            # numbers of a block are all different, unless the block deviates in this
            self.pattern = self.c.pick("numbers", ["distinct", "same", "zeros", "pairs", "threes", "ones"])
        self.k += 1
        k = self.k
        if self.pattern in ("zeros", "ones"):
            return Num("0.0", 0.0) if self.pattern == "zeros" else Num("1", 1.0)
        k = {"distinct": k, "same": 1, "pairs": (k - 1) % 2 + 1, "threes": (k - 1) % 3 + 1}[self.pattern]
        s = self.c.dev(f"n{self.k}", kinds)
        x = f"{k}.{k * 37 % 91 + 100}"
        t = {"fix": x, "neg": "-" + x, "int": str(k + 1), "exp": f"{x}E-02", "dexp": f"-{x}d+01", "frac": f"{k}/{k % 5 + 7}", "negfrac": f"-{k}/3",
             "point": "." + x.split(".")[1], "trail": f"{k}.", "zero": "0.0", "plus": "+" + x}[s]
        v = t.replace("d", "e")
        if "/" in v:
            a, b = v.split("/")
            v = int(a) / int(b)
        return Num(t, float(v))

    def row(self, n, **kw):
        return [self(**kw) for _ in range(n)]


def vals(r):
    return [x.v for x in r]


def text(c, r):
    return "  ".join(r)


def general(cols, rows, units):
    """Rows of numbers with optional unit line."""

    def build(c, N):
        n = c.pick("rows", rows)
        u = c.pick("units", [None, *units])
        data = [N.row(cols) for _ in range(n)]
        e = {"data": [vals(r) for r in data]}
        if u:
            e["units"] = u
        return ([u] if u else []) + [text(c, r) for r in data], e
    return build


def pressure(c, N):
    u = c.pick("units", ["GPa", "Pa", "hartree/bohr**3", "ev/ang**3", None])
    data = [N.row(3), N.row(2), N.row(1)]
    e = {"data": [vals(r) for r in data]}
    if u:
        e["units"] = u
    return ([u] if u else []) + [" " * 9 * i + text(c, r) for i, r in enumerate(data)], e


SPECS = ["H", "O", "Fe", "Si:a1", "Ti:Tag"]


def positions(absolute, attrs=True):
    def build(c, N):
        u = c.pick("units", [None, "bohr", "Ang", "nm"]) if absolute else None
        n = c.pick("atoms", [1, 3, 0, 12])
        pat = c.pick("species", ["same", "mixed", "tagged"])
        lines, e, cnt = [u] if u else [], {}, {}
        for i in range(n):
            sp = {"same": "Fe", "mixed": ["O", "Fe", "O"][i % 3], "tagged": ["Fe:up", "Fe", "Fe:dn"][i % 3]}[pat]
            cnt[sp] = cnt.get(sp, 0) + 1
            p = N.row(3) if n < 10 else [Num(f"{i}.25", i + 0.25), Num("1/3", 1 / 3), Num("-1", -1.0)]
            a = {"pos": vals(p)}
            line = sp + "   " + text(c, p)
            if absolute:
                a["units"] = u or "Ang"
            if attrs:
                k = c.dev(f"spin{i}", ["", " SPIN=", " spin = ", " SPIN : ", " MAGMOM=", " MagMom: ", " SPIN "])
                if k:
                    s = N()
                    a["spin"] = s.v
                    line += k + s
                k = c.dev(f"mix{i}", ["", " MIXTURE:( %d %s)", " MIXTURE:(  %d  %s )", " mixture:( %d  %s)", " MIXTURE:(%d %s)"])
                if k:
                    m = N(["fix", "frac", "point"])
                    a["mix_index"], a["weight"] = i + 1, m.v
                    line += k % (i + 1, m)
            lines.append(line)
            e[sp, cnt[sp]] = a
        return lines, e
    return build


def symops(c, N):
    n = c.pick("ops", [1, 2, 4, 0])
    lines, e = [], []
    for i in range(n):
        r = [N.row(3) for _ in range(4)]
        if c.dev(f"comment{i}", [True, False]):
            lines.append(f"# SYM OP {i + 1}")
        lines += [text(c, x) for x in r]
        e.append({"r": [vals(x) for x in r[:3]], "t": vals(r[3])})
    return lines, e


def ionic(c, N):
    n = c.pick("rows", [1, 3, 0, 12])
    pat = c.pick("atoms", ["one", "several", "tagged", "wide"])
    lines, e = [], {}
    for i in range(n):
        sp, k = {"one": ("W", 1), "several": (("W", "O", "W")[i % 3], i // 3 + 1), "tagged": (("W:a", "W")[i % 2], 1), "wide": ("Si", (9, 10, 100)[i % 3])}[pat]
        v = N.row(3, kinds=["fix", "neg", "zero", "exp"]) if n < 10 else [Num(f"{i}.5", i + 0.5), Num("-1.0", -1.0), Num("0.0", 0.0)]
        lines.append(f"{i + 1:8d} {sp:>7} {k:7d}   " + text(c, v))
        e.setdefault((sp, k), []).append(vals(v))
    return lines, e


def nonlinear(c, N):
    n = c.pick("rows", [1, 2, 0])
    lines, e, k = [], [], 0
    for i in range(n):
        kind, m = c.pick(f"kind{i}", [("distance", 2), ("bend", 3), ("torsion", 4)])
        same = c.pick(f"species{i}", ["same", "mixed", "tagged"])
        line, atoms = f"{kind:>8}", {}
        for j in range(m):
            k += 1
            sp = {"same": "H", "mixed": ("H", "O", "Si", "C")[j], "tagged": ("H:a", "H", "H:b", "O")[j]}[same]
            s = [c.dev(f"s{k}{x}", [(k + x) % 3, -1, 12]) for x in range(3)]
            idx = (k, 10 + k, 100 + k)[c.dev(f"i{k}", [0, 1, 2])]
            line += f"  {sp:>6} {idx}  " + "  ".join(map(str, s))
            atoms[sp, idx] = s
        lines.append(line)
        e.append({"key": kind, "atoms": atoms})
    return lines, e


def species(values):
    def build(c, N):
        n = c.pick("rows", [1, 3, 5])
        u = c.pick("units", [None, "amu", "Barn"])
        first = c.pick("first", [0, 3])
        lines, e = [u] if u else [], {"data": {}}
        for i in range(n):
            sp = SPECS[(i + first) % 5]
            t, v = c.pick(f"v{i}", values) if i < 2 else values[i % len(values)]
            lines.append(f"  {sp:>6}  {t}")
            e["data"][sp] = v
        if u:
            e["units"] = u
        return lines, e
    return build


MASSES = [("15.9989995956", 15.9989995956), ("1.5E+01", 15.0), ("2.5d1", 25.0), ("-0.5", -0.5), ("0", 0)]
COUNTS = [("1", 1), ("2", 2), ("12", 12)]
POTS = [("Fe_00.usp", "Fe_00.usp"), ("C19", "C19"), ("O_C19MK2_PBE_OTF.usp", "O_C19MK2_PBE_OTF.usp"), ("/a b/H.recpot", "/a b/H.recpot"), ("QC5", "QC5")]


def typed(t):
    try:
        return int(t)
    except ValueError:
        return float(t.replace("d", "e"))


def hubbard(c, N):
    u = c.pick("units", [None, "eV", "hartree", "Ha"])
    n = c.pick("rows", [1, 2, 3])
    pat = c.pick("atoms", ["plain", "indexed", "tagged", "both"])
    lines, e = [u] if u else [], {"units": u or "eV"}
    for i in range(n):
        sp = ("Fe", "U", "Ni:a")[i] if pat != "tagged" else ("Fe:a", "Fe:b", "Fe")[i]
        idx = {"plain": None, "indexed": i + 9, "tagged": None, "both": i or None}[pat]
        orbs = [["d"], ["d", "f"], ["s", "p", "d"]][c.pick(f"orbs{i}", 3)]
        gap = c.dev(f"gap{i}", [": ", ":", " : "])
        line, d = f"  {sp} {idx or ''} ", {}
        for o in orbs:
            t = N(["fix", "int", "exp", "point", "trail", "dexp", "neg"])
            line += f" {o}{gap}{t}"
            d[o] = typed(t)
        lines.append(line)
        e[(sp, idx) if idx else sp] = d
    return lines, e


def sedc(c, N):
    u = c.pick("units", [None, ("hartree", "bohr"), ("eV", "Ang")])
    n = c.pick("rows", [1, 2, 3])
    lines, e = [" ".join(u)] if u else [], {"units": {"energy": u[0] if u else "eV", "distance": u[1] if u else "Ang"}}
    for i in range(n):
        sp = SPECS[(i * 3) % 5] if c.dev(f"sp{i}", [0, 1]) == 0 else SPECS[(i * 3 + 1) % 5]
        if sp in e:
            sp = "Zn"
        pars = [["C6"], ["C6", "R0"], ["C6", "R0", "alpha", "Neff"]][c.pick(f"pars{i}", 3)]
        line, d = f"{sp}", {}
        gap = c.dev(f"gap{i}", [":", ": ", " : "])
        for o in pars:
            t = N(["fix", "int", "neg", "exp", "trail", "dexp"])
            line += f" {o}{gap}{t}"
            d[o] = typed(t)
        lines.append(line)
        e[sp] = d
    return lines, e


def xcdef(c, N):
    names = c.subset("xc", ["LDA", "hf", "LIBXC_MGGA_XC_ZLP"])
    lines, e = [], {"xc": {}, "params": {}}
    for n in names:
        t = N(["fix", "int", "trail", "point", "exp", "dexp"])
        lines.append(f"{n}  {t}")
        e["xc"][n.lower()] = t.v
    for n in c.subset("pars", ["NLXC_SCREENING_LENGTH", "NLXC_SCREENING_FUNCTION", "nlxc_ppd_int", "NLXC_DIVERGENCE_CORR"]):
        if n.endswith("LENGTH"):
            t = N(["fix", "int", "exp"])
            v = t.v
        elif n.endswith("FUNCTION"):
            t = v = "THOMAS-FERMI"
        else:
            t, v = c.pick(n, [("ON", True), ("OFF", False), ("on", True)])
        lines.insert(0 if c.dev("at" + n, [0, 1]) else len(lines), f"{n} {t}")
        e["params"][n.lower()] = v
    return lines, e


def devel(c, N):
    """Options, bare words and groups; names that share text with one another."""
    vals_ = [("31", 31), ("T", True), ("15.12", 15.12), ("Hello", "Hello"), ("-1.5E-3", -1.5e-3)]
    lines, e = [], {}
    items = c.subset("items", ["opt", "optx", "word", "PP", "PPx", "data"])
    for it in c.perm("order", items) if len(items) < 4 else items:
        eq = c.dev("eq" + it, ["=", ":"])
        if it in ("opt", "optx"):
            t, v = c.pick(it, vals_[:3] if it == "opt" else vals_[3:])
            lines.append(f"{it}{eq}{t}")
            e[it] = v
        elif it == "word":
            lines.append("present_value")
            e["present_value"] = None
        else:
            t, v = c.dev(it, vals_)
            body = {"PP": f"test_par{eq}{t}", "PPx": f"test_par{eq}{t} other{eq}2", "data": "1.5 2 word"}[it]
            name = {"data": "GRP"}.get(it, it)
            sep = c.dev("sep" + it, [" ", "\n"])
            lines += f"{name}:{sep}{body}{sep}:END{name}".split("\n")
            e[name.lower()] = {"PP": {"test_par": v}, "PPx": {"test_par": v, "other": 2}, "data": {"data": [1.5, 2, "word"]}}[it]
    return lines, e


KINDS = {
    "LATTICE_ABC": general(3, [2], ["ang", "Ang", "bohr", "nm"]),
    "LATTICE_CART": general(3, [3], ["ang", "Ang", "BOHR", "nm"]),
    "CELL_CONSTRAINTS": general(3, [2], []),
    "EXTERNAL_EFIELD": general(3, [1], ["HARTREE/BOHR/E", "eV/ang/e"]),
    "IONIC_VELOCITIES": general(3, [1, 2, 4, 0], ["ang/ps", "bohr/aut"]),
    "KPOINTS_LIST": general(4, [1, 2, 3, 0], []),
    "BS_KPOINT_PATH": general(3, [1, 2, 3], []),
    "PHONON_FINE_KPOINT_LIST": general(4, [1, 2], []),
    "PHONON_KPOINT_LIST": general(3, [1, 2], []),
    "PHONON_SUPERCELL_MATRIX": general(3, [3], []),
    "SUPERCELL_KPOINTS_LIST": general(4, [1, 2], []),
    "MAGRES_JCOUPLING_LIST": general(2, [1, 2], []),
    "EXTERNAL_PRESSURE": pressure,
    "POSITIONS_FRAC": positions(False), "POSITIONS_ABS": positions(True),
    "POSITIONS_FRAC_INTERMEDIATE": positions(False, False), "POSITIONS_FRAC_PRODUCT": positions(False, False),
    "POSITIONS_ABS_INTERMEDIATE": positions(True, False), "POSITIONS_ABS_PRODUCT": positions(True, False),
    "SYMMETRY_OPS": symops, "IONIC_CONSTRAINTS": ionic, "NONLINEAR_CONSTRAINTS": nonlinear,
    "SPECIES_MASS": species(MASSES), "SPECIES_LCAO_STATES": species(COUNTS), "SPECIES_Q": species(MASSES[:2]),
    "HUBBARD_U": hubbard, "SEDC_CUSTOM_PARAMS": sedc, "XC_DEFINITION": xcdef, "DEVEL_CODE": devel,
}


def pots(c, N):
    n = c.pick("rows", [1, 2, 3])
    lines, e = [], {}
    for i in range(n):
        sp = SPECS[(i * 2) % 5]
        t, v = c.pick(f"pot{i}", POTS)
        lines.append(f"  {sp}   {t}")
        e[sp] = v
    if c.dev("lib", [0, 1]):
        lines, e = ["  C19"], {None: "C19"}
    return lines, e


KINDS["SPECIES_POT"] = pots
CASES = [str, str.lower, str.title]


def wrap(c, title, lines, n=""):
    """A block as text, with layout deviations."""
    name = c.dev(f"case{n}", CASES)(title)
    kw = c.dev(f"kwcase{n}", ["%BLOCK", "%block", "%Block"])
    out = [c.dev(f"ind{n}", ["", "  ", "\t"]) + kw + c.dev(f"gap{n}", [" ", "  ", "\t"]) + name + c.dev(f"tail{n}", ["", "   ", "  # why"])]
    where = c.dev(f"noise{n}", [None, *range(len(lines) + 1)])
    what = c.dev(f"what{n}", ["", "   ", "# 1 2 3", "  ! Fe 1 2 3"]) if where is not None else None
    for i, x in enumerate([*lines, None]):
        if where == i:
            out.append(what)
        if x is not None:
            out.append(x)
    at = c.dev(f"inline{n}", [None, *range(len(lines))])
    if at is not None:
        i = out.index(lines[at])
        out[i] += c.dev(f"inl{n}", ["  # 7.5 8 9", "! Fe", " "])
    out.append(c.dev(f"eind{n}", ["", "   ", "\t"]) + kw.replace("%B", "%ENDB").replace("%b", "%endb") + " " + name)
    return out


def run(c, txt, exp, fn=None):
    fn = fn or c.dev("entry", [parse_cell_file, parse_param_file])
    try:
        got = canon(fn(io.StringIO(txt)))
    except Hang:
        raise
    except Exception as err:
        raise Violation(f"parser failed: {fmt_exc(err)}", {"text": txt}) from None
    d = diff([exp], got)
    if d:
        raise Violation(show(d), {"text": txt, "got": repr(got)})


def blocks(names):
    def model(c):
        title = c.pick("block", names)
        lines, e = KINDS[title](c, Nums(c))
        run(c, "\n".join(wrap(c, title, lines)) + c.dev("end", ["\n", "", "\n\n"]), {title.lower(): e})
    return model


class Free:
    """Chooser for parts kept at their default."""

    def pick(self, _n, o):
        return (list(range(o)) if isinstance(o, int) else list(o))[-1]

    def dev(self, _n, o):
        return list(o)[0]

    def subset(self, _n, o):
        return list(o)

    def perm(self, _n, o):
        return list(o)


NOISE = ["", "\n", "# %BLOCK LATTICE_ABC\n", "  ! a comment\n", "   \n\t\n"]
KEYS = [("TASK : SPEED", "task", "SPEED"), ("kpoint_mp_grid 2 2 2", "kpoint_mp_grid", [2, 2, 2]), ("CUT_OFF_ENERGY = 500 eV", "cut_off_energy", [500, "eV"]),
        ("FIX_COM=true", "fix_com", True)]


def order(c):
    """Any sequence of distinct blocks and keywords gives the union of what each gives alone."""
    names = list(KINDS)
    k = 3 if c.deep else 2
    exp, txt = {}, ""
    for i in range(k):
        n = c.pick(f"b{i}", [x for x in names if x.lower() not in exp])
        lines, e = KINDS[n](Free(), Nums(Free()))
        lines = wrap(Free(), n, lines)
        exp[n.lower()] = e
        txt += c.dev(f"noise{i}", NOISE) + "\n".join(lines) + "\n"
        kw = c.dev(f"key{i}", [None, *KEYS])
        if kw and kw[1] not in exp:
            txt += kw[0] + "\n"
            exp[kw[1]] = kw[2]
    run(c, txt, exp, parse_cell_file)


def unterminated(c):
    """A block the text ends in is an error, wherever it is cut."""
    n = c.pick("block", list(KINDS))
    lines, e = KINDS[n](Free(), Nums(Free()))
    lines = wrap(Free(), n, lines)
    pre = c.pick("before", ["", "task : SPEED\n", "%BLOCK SPECIES_MASS\nH 1.0\n%ENDBLOCK SPECIES_MASS\n"])
    cut = c.pick("cut", range(1, len(lines)))
    txt = pre + "\n".join(lines[:cut]) + c.pick("end", ["\n", "", "\n\n", "\n# end\n"])
    try:
        got = parse_cell_file(io.StringIO(txt))
    except Hang:
        raise
    except Exception:
        return "error"
    raise Violation("unterminated block accepted silently", {"text": txt, "got": repr(got)})


def lost(c):
    """Constraints relating an atom to its own image, and vector spins: data the layout cannot hold."""
    a, b = c.pick("s1", [(0, 0, 0), (1, 0, 0)]), c.pick("s2", [(0, 0, 1), (-1, 0, 0)])
    if c.pick("what", ["image", "spin"]) == "image":
        sp, i = c.pick("atom", [("H", 4), ("O", 10)])
        txt = f"%BLOCK NONLINEAR_CONSTRAINTS\ndistance {sp} {i} {a[0]} {a[1]} {a[2]}  {sp} {i} {b[0]} {b[1]} {b[2]}\n%ENDBLOCK NONLINEAR_CONSTRAINTS\n"
        got = canon(parse_cell_file(io.StringIO(txt)))[0]["nonlinear_constraints"]
        flat = repr(got)
        if all(repr(list(x)) in flat for x in (a, b)):
            return "ok"
        known = got == [{"key": "distance", "atoms": {(sp, i): list(b)}}]
        raise Violation(f"image offsets {a} and {b} of {sp} {i} became {flat}", {"text": txt}, finding="C18-atom-image" if known else None)
    v = (1.5, 0.25 + a[0], -0.5 * b[2])
    txt = f"%BLOCK POSITIONS_FRAC\nFe 0 0 0 SPIN= {v[0]} {v[1]} {v[2]}\n%ENDBLOCK POSITIONS_FRAC\n"
    got = canon(parse_cell_file(io.StringIO(txt)))[0]["positions_frac"]
    if got.get(("Fe", 1), {}).get("spin") == list(v):
        return "ok"
    known = got == {("Fe", 1): {"pos": [0.0, 0.0, 0.0], "spin": 1.5}}
    raise Violation(f"vector spin {v} became {got}", {"text": txt}, finding="C18-vector-spin" if known else None)


GROUPS = [("rows", ["LATTICE_ABC", "LATTICE_CART", "CELL_CONSTRAINTS", "EXTERNAL_EFIELD", "IONIC_VELOCITIES", "EXTERNAL_PRESSURE", "MAGRES_JCOUPLING_LIST"]),
          ("lists", ["KPOINTS_LIST", "BS_KPOINT_PATH", "PHONON_FINE_KPOINT_LIST", "PHONON_KPOINT_LIST", "PHONON_SUPERCELL_MATRIX", "SUPERCELL_KPOINTS_LIST"]),
          ("positions", [k for k in KINDS if k.startswith("POSITIONS")]),
          ("constraints", ["SYMMETRY_OPS", "IONIC_CONSTRAINTS", "NONLINEAR_CONSTRAINTS"]),
          ("species", ["SPECIES_MASS", "SPECIES_LCAO_STATES", "SPECIES_Q", "SPECIES_POT"]),
          ("tables", ["HUBBARD_U", "SEDC_CUSTOM_PARAMS", "XC_DEFINITION"]), ("devel", ["DEVEL_CODE"])]
MODELS = [(g, blocks(n), 1, 2) for g, n in GROUPS] + [("order", order, 1, 1), ("unterminated", unterminated, 0, 0), ("lost", lost, 0, 0)]
