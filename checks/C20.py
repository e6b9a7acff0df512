"""A main output file is split into its runs, each parsed as if it stood alone."""
from mc import castep
from mc.compare import canon
from mc.gen import Writer
from mc.sections import SECTIONS, Fixed, build
from mc.sections.steps import ALL_KINDS
from mc.secs import ASSUME
from checks import C22

ASSUMPTIONS = [*ASSUME, "a run begins with the 'Compiled for' line CASTEP prints; the runs before the last are complete at a section boundary"]

NAMES = [n for n in SECTIONS if n != "build_info"]
BANNER = """
 +-------------------------------------------------+
 |                                                 |
 |      CCC   AA    SSS  TTTTT  EEEEE  PPPP        |
 |     C     A  A  S       T    E      P   P       |
 |     C     AAAA   SS     T    EEE    PPPP        |
 |     C     A  A     S    T    E      P           |
 |      CCC  A  A  SSS     T    EEEEE  P           |
 |                                                 |
 +-------------------------------------------------+
 |                                                 |
 | Welcome to Academic Release CASTEP version 23.1 |
 | Ab Initio Total Energy Program                  |
 |                                                 |
 +-------------------------------------------------+
""".split("\\n")
GAPS = ([""], [], ["", ""], BANNER, ["", " Job aborted by signal", ""])
COMPOSITE = {
    "singlepoint": ("time_started", "title", "options", "cell", "positions", "mass", "pspot_files", "kpoints", "scf", "energies",
                    "forces", "stress", "mulliken", "finalisation"),
    "phonon": ("title", "symmetry", "scf", "energies", "phonons", "thermodynamics", "born", "permittivity", "raman", "finalisation"),
    "md": ("title", "cell", "positions", "md", "finalisation", "parallel_efficiency"),
    "geom": ("title", "cell", "positions", "geom", "final_configuration", "mulliken", "bonds", "hirshfeld", "finalisation"),
    "magres": ("title", "cell", "positions", "spin", "chem_shielding", "efg", "jcoupling", "finalisation"),
    "spectral": ("title", "energies", "band_structure", "tddft", "delta_scf", "elf", "finalisation"),
    "empty": (),
    "elastic": ("elastic_constants", "compliance", "elastic_properties", "solvation", "autosolvation"),
    "pair": ("pair_params", "dftd", "memory_estimate", "warning_block", "warning_dash"),
}


def body(w, names, i=0, header=True, kinds=None):
    """Lines and expected data of one run."""
    lines, ops = [], []
    for n in (("build_info",) if header else ()) + tuple(names):
        a, b = castep.fixed(n, w, i, kinds)
        lines += [*a, ""]
        ops += b
    if names and names[-1] != "warning_dash":  # indented lines after a warning are part of it
        lines.pop()
    return lines, castep.prune(canon(build(ops, quirk=True)))


def verdict(chunks, filters=None):
    lines = [x for ls, _ in chunks for x in ls]
    castep.expect(castep.text_of(lines), [r for _, r in chunks if r is not None], filters=filters)


def two(c):
    """Every ordered pair of section kinds, one in each run."""
    a, b = c.pick("first", NAMES), c.pick("second", NAMES)
    w = Writer(Fixed(0))
    head = not c.devflag("headless")
    first = body(w, (a,), c.dev("va", (0, -1)), head)
    gap = c.dev("gap", GAPS)
    second = body(w, (b,), c.dev("vb", (0, -1)))
    verdict([first, (gap, None), second])


def three(c):
    """Three runs of realistic contents."""
    w = Writer(Fixed(0))
    chunks = []
    for k in range(3):
        chunks.append(body(w, COMPOSITE[c.pick(f"run{k}", sorted(COMPOSITE))]))
        chunks.append((c.dev(f"gap{k}", GAPS), None))
    verdict(chunks[:-1])


def many(c):
    """Histories of runs: every sequence of section kinds of a small set up to the length bound."""
    names = ("scf", "warning_dash", "md", "geom_enthalpy", "bonds", "mass", "energies", "finalisation", "memory_estimate")
    names = names[:9 if c.deep else 6]
    w = Writer(Fixed(0))
    chunks = [body(w, (c.pick(f"run{k}", names),)) for k in range(c.pick("runs", (1, 2, 3, 4, 5) if c.deep else (1, 2, 3, 4)))]
    verdict(chunks)


def growing(c):
    """Two runs whose contents are every subset of the accumulated quantities: nothing carries over."""
    names = ("scf", "energies", "forces", "stress", "warning_block", "memory_estimate", "born", "pspot_debug")
    names = names[:7 if c.deep else 5]
    w = Writer(Fixed(0))
    verdict([body(w, tuple(c.subset(f"r{k}", names))) for k in range(2)])


def filtered(c):
    """Two or three runs of which only some kinds are asked for: runs without such data give nothing, the others what they give alone."""
    kinds = c.pick("kinds", FILTERS)
    if c.flag("composite"):
        names = [COMPOSITE[c.pick(f"run{k}", sorted(COMPOSITE))] for k in range(2)]
    else:
        names = [(c.pick("first", NAMES),), (c.pick("second", NAMES if c.deep else SOME),)]
    w = Writer(Fixed(0))
    if {"bsc"} & {n for ns in names for n in ns} and "SCF" not in kinds:
        return "see C21-bsc-energies"
    chunks = []
    for ns in names:
        lines, run = body(w, ns, 0, True, kinds)
        if ns and "build_info" not in run and not run and set(ns) & {"geom", "final_configuration"}:
            return "empty containers"
        chunks.append((lines, run or None))
        chunks.append(([""], None))
    verdict(chunks, castep.flags(sorted(kinds)))


SOME = ("energies", "forces", "warning_dash", "title", "scf", "mass", "finalisation")
FILTERS = [frozenset(), *[frozenset({k}) for k in ("SPIN", "STRESS", "SYS_INFO", "CELL", "SCF", "PARAMETERS", "MD")], frozenset({"FORCE", "GEOM_OPT", "POSITION"}),
           ALL_KINDS - {"SYS_INFO"}, ALL_KINDS - {"SYS_INFO", "SCF", "PARAMETERS"}]

MODELS = [("filtered", filtered, 0, 0), ("two", two, 0, 1), ("three", three, 0, 1), ("many", many, 0, 0), ("growing", growing, 0, 0)]
