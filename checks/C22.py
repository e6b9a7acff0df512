"""Sections of a main output file are parsed independently of their neighbours."""
from mc import castep
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed, build
from mc.secs import ASSUME

ASSUMPTIONS = [*ASSUME, "a pair of sections that report the same quantity of a run once (two parameter tables, two k-point reports, ...) is not formed",
               "which headings are taken in any case or anywhere in a line is as the code has it; of these no look-alikes are formed"]

RUN_START = "build_info"
NAMES = list(SECTIONS)
# what is printed between two sections: nothing, a blank line, text and rules that belong to no section
SEPS = ([], [""], ["", " Nothing in this line belongs to any section of the output", ""],
        ["", "-" * 79, " Calculation proceeding on 4 nodes, please wait. (2/3)", "=" * 79, ""])


def paths(name):
    ops = castep.fixed(name)[1]
    return [{tuple(map(str, op[1])) for op in ops if op[0] == kind} for kind in ("set", "update", "append")]


SETS = {}


def compatible(a, b):
    if not SETS:
        SETS.update({n: paths(n) for n in NAMES})
    if b == RUN_START:  # begins another run (C20)
        return False
    if a == b:
        return not SETS[a][0] and not SETS[a][1]
    if {a, b} == {"scf", "bsc"}:
        return False
    return not (SETS[a][0] & (SETS[b][0] | SETS[b][2]) or SETS[a][2] & SETS[b][0]) or "bsc" in (a, b)


PARTNERS = {}


def partners(a):
    if a not in PARTNERS:
        PARTNERS[a] = [b for b in NAMES if compatible(a, b)]
    return PARTNERS[a]


def section(w, name, i):
    return castep.fixed(name, w, i)


def join(*parts):
    """Parts of (name, lines): indented lines after a warning are part of it, so a blank line goes before those."""
    out, last = [], None
    for name, lines in parts:
        if last == "warning_dash" and lines and lines[0][:1] == " ":
            out.append("")
        out += lines
        last = name if lines else last
    return out


def verdict(lines, oplists):
    ops = [o for ol in oplists for o in ol]
    castep.expect(castep.text_of(lines), [castep.prune(castep.canon(build(ops, quirk=True)))])


def pair(c):
    a = c.pick("first", NAMES)
    b = c.pick("second", partners(a))
    sep = c.dev("between", SEPS)
    w = Writer(Fixed(0))
    la, oa = section(w, a, c.dev("va", (0, -1)))
    lb, ob = section(w, b, c.dev("vb", (0, -1)))
    verdict(join((a, la), (None, sep), (b, lb)), [oa, ob])


SHORT = [n for n in NAMES if len(castep.fixed(n)[0]) <= 15]


def triple(c):
    """Three sections in a row."""
    names = SHORT if c.deep else SHORT[::4]
    a = c.pick("first", names)
    b = c.pick("second", [n for n in names if compatible(a, n)])
    d = c.pick("third", [n for n in names if compatible(a, n) and compatible(b, n)])
    w = Writer(Fixed(0))
    parts = [section(w, n, 0) for n in (a, b, d)]
    verdict(join(*[(n, ls) for n, (ls, _) in zip((a, b, d), parts)]), [o for _, o in parts])


def inserted(c):
    """Unrecognised text before and after a section."""
    a = c.pick("section", NAMES)
    w = Writer(Fixed(0))
    la, oa = section(w, a, c.pick("variant", (0, -1)))
    verdict(join((None, c.pick("before", SEPS)), (a, la), (None, c.pick("after", SEPS))), [oa])


ALIKE = {
    "lower": str.lower, "upper": str.upper, "quoted": lambda s: f" See also: '{s.strip()}'",
}
# headings the parser takes in any case, or anywhere in a line
LOOSE = {
    "lower": ("warning", "finite basis set correction", "forces ***", "stress tensor ***", "starting iteration", ": final "),
    "upper": ("WARNING", "FORCES ***", "STRESS TENSOR ***", "| <-- ", ": FINAL "),
    "quoted": ("Run started", "Initialisation time", "DFT-D parameters", "BZ Sampling", "Applied Electric Field", "External pressure/stress",
               "Initial magnetic", "Initial            Initial", "Supercell generated", "Fractional coordinates", "User Supplied Ionic Velocities",
               "Mass of species", "Electric Quadrupole Moment", "Files used for pseudopotentials", "Pseudo atomic calculation", "Quantisation axis",
               "SCF loop", "<- occ", "0K energy (E-0.5TS)", "For future reference", "finite basis set", "removing force on", "Population      ",
               "Vibrational Frequencies", "Phonon Symmetry Analysis", "Contribution ::", "Calculating MODOS", "<BEGIN", "Starting ",
               "finished iteration", "starting iteration", "Final Configuration", "INTERNAL CONSTRAINTS", "delocalized internals",
               "size of active space"),
}


def alike(c):
    """Lines that resemble lines of a section without being such give no data and disturb none."""
    name = c.pick("section", NAMES)
    how = c.pick("how", ALIKE)
    w = Writer(Fixed(0))
    lines = []
    for x in section(w, name, c.pick("variant", (0, -1)))[0]:
        y = ALIKE[how](x)
        if sum(ch.isalpha() for ch in x) >= 6 and y != x and y not in lines and not any(loose in y for loose in LOOSE[how]):
            lines.append(y)
    if not lines:
        return "no text"
    lines = lines[:40]
    x = lines[c.pick("line", range(len(lines)))] if how != "lower" or c.pick("all", (False, True)) is False else None
    la, oa = section(w, "energies", 0)
    lb, ob = section(w, "stress", 0)
    verdict([*la, "", *(lines if x is None else [x]), "", *lb], [oa, ob])


MODELS = [("alike", alike, 0, 0), ("pair", pair, 1, 2), ("triple", triple, 0, 0), ("inserted", inserted, 0, 0)]
