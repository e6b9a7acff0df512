"""Trajectory (.md/.geom) files: writer model -> real parser."""
from castep_outputs import parse_md_geom_file

from mc.gen import Writer, check
from mc.sections import ELEMENTS

ALIAS = {"E": "energy", "T": "temperature", "P": "pressure", "h": "lattice_vectors", "hv": "lattice_velocity",
         "S": "stress", "R": "position", "V": "velocity", "F": "force"}
PAD = "                  "


def alias(d):
    for k, v in ALIAS.items():
        if k in d:
            d[v] = d[k]
    return d


def frame(c, w, atoms, secs, i, kind="md"):
    lines, exp = [], {"ions": {}}
    if kind == "md":
        t = w.E("time", 26, 16, kinds=("pos", "zero", "huge"))
        lines.append(PAD + t)
        exp["time"] = t.v
    else:
        lines.append(f"{i:>39d}" if c.pick(f"geolabel{i}", (True,)) else "")
        exp["time"] = float(i)

    def row(vals, tag, wid=3):
        return PAD + " ".join(vals) + " " * (27 * (wid - len(vals))) + f"  <-- {tag}"

    for tag, n, rows in (("E", 3, 1), ("T", 1, 1), ("P", 1, 1), ("h", 3, 3), ("hv", 3, 3), ("S", 3, 3)):
        if tag not in secs:
            continue
        if tag == "E" and kind == "geom":
            n = 2
        exp[tag] = []
        for _ in range(rows):
            vals = [w.E(tag, 26, 16) for _ in range(n)]
            lines.append(row(vals, tag))
            exp[tag].append([v.v for v in vals])
    for tag in "RVF":
        if tag not in secs:
            continue
        for spec, n in atoms:
            vals = [w.E(tag, 26, 16) for _ in range(3)]
            lines.append(f" {spec:<8} {n:>7d} {vals[0]} {vals[1]} {vals[2]}  <-- {tag}")
            exp["ions"].setdefault((spec, n), {})[tag] = [v.v for v in vals]
    for ion in exp["ions"].values():
        alias(ion)
    return lines, alias(exp)


ATOMS = {
    "one": [("Si", 1)],
    "two-same": [("Si", 1), ("Si", 2)],
    "two-spec": [("H", 1), ("O", 1)],
    "tagged": [("H:D", 1), ("H", 1)],
    "labelled": [("O [ca]", 1), ("O", 2)],
    "large": [("C", 9), ("C", 10), ("C", 123), ("C", 99999)],
    "three": [("Fe", 1), ("O", 1), ("O", 2)],
}
SEP = {"empty": "", "two-blanks": "  ", "one-blank": " "}


def header(c):
    kind = c.dev("header", ("blank", "comment", "blanks"))
    body = {"blank": [""], "comment": ["", "  A comment <here> 1.0 2.0", ""], "blanks": ["  "]}[kind]
    return [" BEGIN header", *body, " END header"]


def shapes(c):
    """Frames x atoms x section subsets x separators; numbers at their defaults."""
    nfr = c.pick("frames", range(1, 5 if c.deep else 4))
    atoms = ATOMS[c.pick("atoms", ATOMS)]
    sep = SEP[c.pick("sep", SEP)]
    tail = c.pick("tail", ("sep", "none", "twosep"))
    kind = c.pick("kind", ("md", "geom"))
    w = Writer(c, kinds=("pos",))
    lines = [*header(c), sep]
    exp = []
    full = ["E", "T", "P", "h", "hv", "S", "R", "V", "F"]
    base = full if kind == "md" else ["E", "h", "S", "R", "F"]
    for i in range(nfr):
        drop = c.dev(f"drop{i}", (None, *base))
        only = c.dev(f"only{i}", (False, True))
        secs = [s for s in base if s != drop]
        if only:
            secs = ["E", "h", "R"]
        ls, ex = frame(c, w, atoms, secs, i, kind)
        lines += ls
        if i < nfr - 1:
            lines.append(sep)
        exp.append(ex)
    lines += {"sep": [sep], "none": [], "twosep": [sep, sep]}[tail]
    text = "\n".join(lines) + ("" if c.dev("noeol", (False, True)) else "\n")
    check(parse_md_geom_file, text, exp)
    return f"{kind}/{nfr}"


def values(c):
    """Every number slot of a two-frame file, every spelling."""
    atoms = ATOMS["two-spec"]
    kind = c.pick("kind", ("md", "geom"))
    w = Writer(c)
    lines, exp = [" BEGIN header", "", " END header", ""], []
    secs = ["E", "T", "P", "h", "hv", "S", "R", "V", "F"] if kind == "md" else ["E", "h", "S", "R", "F"]
    for i in range(2):
        ls, ex = frame(c, w, atoms, secs, i, kind)
        lines += [*ls, ""]
        exp.append(ex)
    check(parse_md_geom_file, "\n".join(lines) + "\n", exp)
    return kind


def interleaved(c):
    """Order of atoms and of tags within the frame does not matter; atoms may come in any order."""
    atoms = c.perm("atoms", [("H", 1), ("H", 2), ("O", 1)])
    order = c.perm("tags", "RVF")
    byatom = c.flag("by-atom")
    w = Writer(c, kinds=("pos",))
    exp = {"ions": {}, "time": 0.0}
    rows = []
    pairs = [(t, a) for a in atoms for t in order] if byatom else [(t, a) for t in order for a in atoms]
    for tag, (s, n) in pairs:
        vals = [w.E(tag, 26, 16) for _ in range(3)]
        rows.append(f" {s:<8} {n:>7d} {vals[0]} {vals[1]} {vals[2]}  <-- {tag}")
        exp["ions"].setdefault((s, n), {})[tag] = [v.v for v in vals]
    e = [w.E("E", 26, 16) for _ in range(3)]
    exp["E"] = [[v.v for v in e]]
    lines = ["BEGIN header", "", "END header", "", PAD + "  0.0000000000000000E+000",
             PAD + " ".join(e) + "  <-- E", *rows, ""]
    for ion in exp["ions"].values():
        alias(ion)
    check(parse_md_geom_file, "\n".join(lines), [alias(exp)])


def large(c):
    """Many frames, many atoms, many species."""
    nfr, kind = c.pick("frames", (1, 2, 60, 1200)), c.pick("kind", ("md", "geom"))
    if nfr < 3:
        atoms = c.pick("atoms", ([("C", i) for i in range(1, 1101)], [(s, i) for i in range(1, 40) for s in ("H", "O:w", "He [x]")],
                                 [(s, 1) for s in ELEMENTS]))
    else:
        atoms = ATOMS["tagged"]
    w = Writer(c, kinds=("pos",))
    lines, exp = [*header(c), ""], []
    for i in range(nfr):
        ls, ex = frame(c, w, atoms, ["E", "T", "h", "R", "V", "F"] if i % 3 else ["E", "h", "R"], i, kind)
        lines += [*ls, ""]
        exp.append(ex)
    check(parse_md_geom_file, "\n".join(lines) + "\n", exp)
    return f"{nfr} frames"


MODELS = [("large", large, 0, 0), ("shapes", shapes, 1, 2), ("values", values, 1, 2), ("interleaved", interleaved, 0, 0)]
